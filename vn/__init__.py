"""Global value numbering over the syntax tree of /repo (never imports or runs it)."""
