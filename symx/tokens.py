"""lets harnesses name the text-token model without importing the solver (replay side has none)"""


def text():
    try:
        from .explore import TextTokens
        return TextTokens
    except ImportError:
        return None
