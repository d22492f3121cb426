"""vsym: symbolic execution of the real numpy code in /repo, decided by z3."""
