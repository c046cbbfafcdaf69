"""Property based checks of geoana (see DESIGN.md)."""
