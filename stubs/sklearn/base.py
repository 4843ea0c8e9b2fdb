class BaseEstimator:
    """Marker base class"""
