"""Calls of the code under test, through its public interface only."""
import logging

logging.disable(logging.CRITICAL)

from markflow import reformat_markdown_text  # noqa: E402
from markflow.exceptions import MarkdownFormatException, ReformatInconsistentException  # noqa: E402


def fmt(text, width=88):
    """('ok', output) | ('table', message) | ('unstable', message) | ('exc', description)"""
    try:
        return "ok", reformat_markdown_text(text, width)
    except MarkdownFormatException as e:
        return "table", str(e)
    except ReformatInconsistentException as e:
        return "unstable", str(e)
    except Exception as e:
        return "exc", "%s: %s" % (type(e).__name__, str(e)[:300])
