"""avn: array value numbering -- a static analyser for the numeric Python of this repository."""
