"""Per-property level notes (bounds in words), merged into MANIFEST.json."""
NOTES = {}
