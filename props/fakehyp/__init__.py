"""Stand-in for hypothesis: strategies that describe what they can generate instead of drawing."""
from props.fakehyp import strategies  # noqa: F401
