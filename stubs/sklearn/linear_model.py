import numpy as np
from .base import BaseEstimator


class LinearRegression(BaseEstimator):
    def __init__(self, fit_intercept=True, normalize=False, n_jobs=None):
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.n_jobs = n_jobs

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
            raise ValueError("Input contains NaN, infinity or a value too large")
        if X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s)")
        A = X
        if self.fit_intercept:
            A = np.hstack([X, np.ones((X.shape[0], 1))])
        if sample_weight is not None:
            w = np.sqrt(np.asarray(sample_weight, dtype=float))
            A = A * w[:, None]
            y = y * w
        coef = np.linalg.lstsq(A, y, rcond=None)[0]
        self.intercept_ = 0.0
        if self.fit_intercept:
            self.intercept_ = coef[-1]
            coef = coef[:-1]
        self.coef_ = coef
        return self

    def predict(self, X):
        return np.asarray(X, dtype=float) @ self.coef_ + self.intercept_


class HuberRegressor(LinearRegression):
    def __init__(self, epsilon=1.35, fit_intercept=True):
        super().__init__(fit_intercept=fit_intercept)
        self.epsilon = epsilon


class TheilSenRegressor(LinearRegression):
    def __init__(
        self,
        fit_intercept=True,
        max_subpopulation=1e4,
        n_subsamples=None,
        n_jobs=None,
    ):
        super().__init__(fit_intercept=fit_intercept)


class RANSACRegressor(BaseEstimator):
    def __init__(self, base_estimator=None, min_samples=None, max_trials=100):
        self.base_estimator = base_estimator

    def fit(self, X, y):
        self.estimator_ = self.base_estimator.fit(X, y)
        return self
