import numpy as np


class LogisticRegression:
    """Keeps what it is fitted on (for the harness) and predicts with given coefficients."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def fit(self, X, y):
        self.fitted_X, self.fitted_y = np.array(X), np.array(y)
        self.classes_ = np.unique(y)
        return self

    def decision_function(self, X):
        return np.asarray(X) @ self.coef_.T + getattr(self, "intercept_", 0)

    def predict(self, X):
        return self.classes_[self.decision_function(X).argmax(axis=1)]

    def score(self, X, y):
        return float(np.mean(self.predict(X) == np.asarray(y)))
