"""Explicit-state / stateless model checking framework for zigpy."""
