from .logistic import LogisticRegression
