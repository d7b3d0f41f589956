//! Named by the tool, not used.
