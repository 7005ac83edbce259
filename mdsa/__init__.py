"""metadetect static analyser (mdsa): value numbering and structural rules over the source tree."""
