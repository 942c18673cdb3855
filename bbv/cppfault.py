class CppFault(Exception):
    """The C++ code under test broke down (bad access, abort, uncaught throw...)."""
    from_code = True
