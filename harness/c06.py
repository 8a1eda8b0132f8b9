"""C06: basis inheritance and validation."""
import registry


def run(c):
    registry.run(c, 'bases')
