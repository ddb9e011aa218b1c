"""Static analysis machinery for AI-Planning/pddl (never imports or runs the analysed code)."""
