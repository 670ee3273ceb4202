"""Repository-specific static analysis for noWorkflow."""
