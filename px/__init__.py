"""px: path-exploring symbolic execution of protosym's Python code with Z3."""
