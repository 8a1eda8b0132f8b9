"""C05: named-instance registries."""
import registry


def run(c):
    registry.run(c, 'maps')
