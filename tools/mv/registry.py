"""Which function decides which property."""
from . import search_checks, tool_checks, session_checks

CHECKS = {}
CHECKS.update(search_checks.CHECKS)
CHECKS.update(tool_checks.CHECKS)
CHECKS.update(session_checks.CHECKS)
