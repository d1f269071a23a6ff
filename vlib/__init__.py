"""Static-analysis library for metoppv/improver (pure `ast`, nothing is executed)."""
