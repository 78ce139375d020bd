"""Property-based verification of razorback (see DESIGN.md)."""
