"""Small explicit-state / stateless model checker for Python code (see DESIGN.md)."""
