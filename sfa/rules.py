"""All checks."""
from . import rules_access, rules_view, rules_exec, rules_policy, rules_tree, rules_write, rules_events, rules_host, rules_py, rules_path, rules_node, rules_sview, rules_bridge, rules_search, rules_iso  # noqa: F401
