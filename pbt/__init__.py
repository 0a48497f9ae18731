"""A small property-based testing engine that runs on the target interpreter."""
