"""The prototype module gcs_basics."""
import gcs_basics as module  # noqa: F401
