"""Stand-in for the (uninstallable) `spu` package: just enough of its API for
mplang to import and run in this sandbox.

Shares are XOR shares of the raw array bytes; a Runtime opens every secret
input by exchanging shares over its link, evaluates the kernel in plaintext and
re-shares the result deterministically.  It offers no secrecy; it is faithful
in what mplang sees of SPU: who must hold which share, who talks to whom with
which tags, and what the opened result is."""
