"""Stand-in for the parts of scikit-learn the repository imports (not installed here)."""
