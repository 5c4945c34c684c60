"""Static analyser for lukashergt/primpy: see DESIGN.md."""
