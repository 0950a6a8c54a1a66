"""PyVC: a deductive verifier for the Python/Cython subset bayesbay is written in."""
