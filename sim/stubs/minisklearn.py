"""Stand-ins for the few scikit-learn classes causalnex imports (absent here)."""
import numpy as np


class BaseEstimator:
    def get_params(self, deep=True):
        import inspect
        names = [p for p in inspect.signature(type(self).__init__).parameters if p != "self"]
        return {n: getattr(self, n) for n in names if hasattr(self, n)}

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class RegressorMixin:
    _estimator_type = "regressor"

    def score(self, X, y, sample_weight=None):
        if sample_weight is not None:
            _gap("score(sample_weight=...)")
        return r2_score(y, self.predict(X))


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        if sample_weight is not None:
            _gap("score(sample_weight=...)")
        return accuracy_score(y, self.predict(X))


def clone(est, safe=True):
    import copy
    return type(est)(**copy.deepcopy(est.get_params()))


class NotFittedError(ValueError, AttributeError):
    pass


class Kernel:
    def __call__(self, X, Y=None):
        raise NotImplementedError


class RBF(Kernel):
    def __init__(self, length_scale=1.0, length_scale_bounds=(1e-5, 1e5)):
        self.length_scale = length_scale

    def __call__(self, X, Y=None):
        X = np.atleast_2d(np.asarray(X, dtype=float)) / self.length_scale
        Y = X if Y is None else np.atleast_2d(np.asarray(Y, dtype=float)) / self.length_scale
        d = ((X[:, None, :] - Y[None, :, :]) ** 2).sum(axis=2)
        return np.exp(-0.5 * d)


# ---------------------------------------------------------------- preprocessing and checks
def _finite(a, what):
    if a.dtype.kind == "f" and not np.all(np.isfinite(a)):
        raise ValueError("Input %scontains NaN, infinity or a value too large for %r." % (what, a.dtype))


def _numeric(a):
    if a.dtype == object or a.dtype.kind in "US":
        try:
            a = a.astype(np.float64)
        except (TypeError, ValueError) as e:
            raise ValueError(str(e)) from e
    return a


def _gap(what):
    from .minipandas import StubGap
    raise StubGap("scikit-learn stand-in: %s" % what)


def check_array(array, accept_sparse=False, dtype="numeric", copy=False, force_all_finite=True, ensure_2d=True, allow_nd=False,
                ensure_min_samples=1, ensure_min_features=1, estimator=None, accept_large_sparse=True, order=None):
    if allow_nd or force_all_finite not in (True, False):
        _gap("check_array options")
    a = np.asarray(array, order=order)
    a = _numeric(a) if isinstance(dtype, str) and dtype == "numeric" else a if dtype is None else a.astype(
        dtype[0] if isinstance(dtype, (list, tuple)) and a.dtype not in [np.dtype(t) for t in dtype] else
        a.dtype if isinstance(dtype, (list, tuple)) else dtype)
    if copy:
        a = np.array(a, copy=True)
    if ensure_2d:
        if a.ndim == 0:
            raise ValueError("Expected 2D array, got scalar array instead")
        if a.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
    if a.ndim >= 3:
        raise ValueError("Found array with dim %d. Estimator expected <= 2." % a.ndim)
    if force_all_finite and a.dtype.kind == "f":
        _finite(a, "")
    if a.shape[0] < ensure_min_samples:
        raise ValueError("Found array with %d sample(s) (shape=%s) while a minimum of %d is required." % (
            a.shape[0], a.shape, ensure_min_samples))
    if ensure_2d and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with %d feature(s) (shape=%s) while a minimum of %d is required." % (
            a.shape[1], a.shape, ensure_min_features))
    return a


def check_X_y(X, y, y_numeric=False, multi_output=False, **kw):
    if y is None:
        raise ValueError("y cannot be None")
    if multi_output:
        _gap("check_X_y(multi_output=True)")
    X = check_array(X, **kw)
    y = np.asarray(y)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y.ravel()
    if y.ndim != 1:
        raise ValueError("bad input shape %s" % (y.shape,))
    if y.dtype.kind == "f":
        _finite(y, "y ")
    if y_numeric and y.dtype == object:
        y = y.astype(np.float64)
    if len(X) != len(y):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(X), len(y)])
    return X, y


def column_or_1d(y, warn=False):
    a = np.asarray(y)
    if a.ndim > 2 or a.ndim == 2 and a.shape[1] != 1 or a.ndim == 0:
        raise ValueError("bad input shape %s" % (a.shape,))
    return a.ravel()


def check_is_fitted(est, attributes=None, **kw):
    if not hasattr(est, "fit"):
        raise TypeError("%s is not an estimator instance." % (est,))
    if attributes is not None:
        names = [attributes] if isinstance(attributes, str) else attributes
        ok = all(hasattr(est, n) for n in names)
    else:
        ok = any(v.endswith("_") and not v.startswith("__") for v in vars(est))
    if not ok:
        raise NotFittedError("This %s instance is not fitted yet. Call 'fit' with appropriate arguments before using this "
                             "estimator." % type(est).__name__)


def check_classification_targets(y):
    a = np.asarray(y)
    if a.ndim > 2 or (a.ndim == 2 and a.shape[1] > 1):
        raise ValueError("Unknown label type: 'multioutput'")
    if a.dtype.kind == "f" and np.any(a != a.astype(int)):
        raise ValueError("Unknown label type: 'continuous'")


class StandardScaler(BaseEstimator, TransformerMixin):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        X = check_array(X).astype(np.float64)
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        s = np.sqrt(self.var_)
        s[s == 0] = 1.0
        self.scale_ = s
        self.n_features_in_ = X.shape[1]
        self.n_samples_seen_ = len(X)
        if not (self.with_mean and self.with_std):
            _gap("StandardScaler without centring or scaling")
        return self

    def transform(self, X, copy=None):
        if not hasattr(self, "scale_"):
            raise NotFittedError("This StandardScaler instance is not fitted yet.")
        X = check_array(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but StandardScaler is expecting %d features" % (X.shape[1], self.n_features_in_))
        return (X.astype(np.float64) - self.mean_) / self.scale_

    def inverse_transform(self, X, copy=None):
        return np.asarray(X, dtype=np.float64) * self.scale_ + self.mean_


class LabelEncoder(BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(np.asarray(y))
        return self

    def transform(self, y):
        y = np.asarray(y)
        idx = np.searchsorted(self.classes_, y)
        idx = np.clip(idx, 0, len(self.classes_) - 1)
        if len(y) and not np.all(self.classes_[idx] == y):
            raise ValueError("y contains previously unseen labels")
        return idx

    def fit_transform(self, y):
        self.classes_, idx = np.unique(np.asarray(y), return_inverse=True)
        return idx.reshape(-1)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class _Encoder(BaseEstimator, TransformerMixin):
    def fit(self, X, y=None):
        X = check_array(X)
        self.categories_ = [np.unique(X[:, j]) for j in range(X.shape[1])]
        return self

    def _codes(self, X):
        if not hasattr(self, "categories_"):
            raise NotFittedError("This %s instance is not fitted yet." % type(self).__name__)
        X = check_array(X)
        out = np.zeros(X.shape, dtype=np.int64)
        for j, cats in enumerate(self.categories_):
            idx = np.clip(np.searchsorted(cats, X[:, j]), 0, len(cats) - 1)
            bad = cats[idx] != X[:, j]
            if bad.any():
                raise ValueError("Found unknown categories %s in column %d during transform" % (sorted(set(X[bad, j].tolist())), j))
            out[:, j] = idx
        return out


class OneHotEncoder(_Encoder):
    def __init__(self, categories="auto", drop=None, sparse=True, dtype=np.float64, handle_unknown="error", sparse_output=None):
        sparse = sparse if sparse_output is None else sparse_output
        self.categories, self.drop, self.sparse, self.dtype, self.handle_unknown = categories, drop, sparse, dtype, handle_unknown
        if sparse or drop is not None or handle_unknown != "error" or categories != "auto":
            from .minipandas import StubGap
            raise StubGap("OneHotEncoder options")

    def transform(self, X):
        codes = self._codes(X)
        return np.hstack([np.eye(len(c), dtype=self.dtype)[codes[:, j]] for j, c in enumerate(self.categories_)])


class OrdinalEncoder(_Encoder):
    def __init__(self, categories="auto", dtype=np.float64):
        self.categories, self.dtype = categories, dtype

    def transform(self, X):
        return self._codes(X).astype(self.dtype)


# ---------------------------------------------------------------- metrics (as of scikit-learn 0.22)
class UndefinedMetricWarning(UserWarning):
    pass


def _vector(y):
    a = np.asarray(y)
    if a.ndim == 2 and a.shape[1] == 1:
        a = a.ravel()
    if a.ndim != 1:
        raise ValueError("bad input shape %s" % (a.shape,))
    return a


def roc_curve(y_true, y_score, pos_label=None, sample_weight=None, drop_intermediate=True):
    import warnings
    y, s = _vector(y_true), _vector(y_score).astype(np.float64)
    if sample_weight is not None:
        _gap("roc_curve(sample_weight=...)")
    if pos_label is not None:
        y = (y == pos_label).astype(int)
    if len(y) != len(s):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(y), len(s)])
    _finite(s, "")
    if not set(y.tolist()) <= {0, 1}:
        raise ValueError("y_true takes value in %s and pos_label is not specified" % sorted(set(y.tolist())))
    y = y == 1
    order = np.argsort(s, kind="mergesort")[::-1]
    y, s = y[order], s[order]
    ends = np.r_[np.where(np.diff(s))[0], len(y) - 1]
    tps = np.cumsum(y)[ends].astype(float)
    fps = 1 + ends - tps
    thr = s[ends]
    if drop_intermediate and len(fps) > 2:
        keep = np.where(np.r_[True, np.logical_or(np.diff(fps, 2), np.diff(tps, 2)), True])[0]
        fps, tps, thr = fps[keep], tps[keep], thr[keep]
    fps, tps, thr = np.r_[0, fps], np.r_[0, tps], np.r_[thr[0] + 1, thr]
    out = []
    for v, what in ((fps, "negative"), (tps, "positive")):
        if v[-1] <= 0:
            warnings.warn("No %s samples in y_true" % what, UndefinedMetricWarning)
            out.append(np.repeat(np.nan, v.shape))
        else:
            out.append(v / v[-1])
    return out[0], out[1], thr


def auc(x, y):
    x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
    _finite(x, "")
    _finite(y, "")
    if len(x) < 2:
        raise ValueError("At least 2 points are needed to compute area under curve, but x.shape = %s" % (x.shape,))
    d = np.diff(x)
    sign = 1
    if np.any(d < 0):
        if not np.all(d <= 0):
            raise ValueError("x is neither increasing nor decreasing : %s." % x)
        sign = -1
    return float(sign * np.sum(d * (y[1:] + y[:-1]) / 2.0))


def roc_auc_score(y_true, y_score, **k):
    if k:
        from .minipandas import StubGap
        raise StubGap("roc_auc_score options")
    f, t, _ = roc_curve(y_true, y_score)
    if np.isnan(f).any() or np.isnan(t).any():
        raise ValueError("Only one class present in y_true. ROC AUC score is not defined in that case.")
    return auc(f, t)


def _labels(y_true, y_pred):
    a, b = _vector(y_true), _vector(y_pred)
    if len(a) != len(b):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(a), len(b)])
    a, b = a.tolist(), b.tolist()
    if len({isinstance(v, str) for v in a + b}) > 1:
        raise ValueError("Mix of label input types (string and number)")
    if any(isinstance(v, float) and v != int(v) for v in a + b):
        raise ValueError("continuous is not supported")
    return a, b


def accuracy_score(y_true, y_pred, **k):
    a, b = _labels(y_true, y_pred)
    return sum(x == y for x, y in zip(a, b)) / float(len(a))


def precision_recall_fscore_support(y_true, y_pred, beta=1.0, labels=None, pos_label=1, average=None, **k):
    if beta != 1.0 or set(k) - {"zero_division", "warn_for"} or average not in (None, "binary", "macro", "weighted", "micro"):
        _gap("precision_recall_fscore_support options")
    r = classification_report(y_true, y_pred, labels=labels, output_dict=True)
    names = sorted(set(_vector(y_true).tolist()) | set(_vector(y_pred).tolist())) if labels is None else list(labels)
    keys = ("precision", "recall", "f1-score")
    if average == "binary":
        row = r.get(str(pos_label), {k: 0.0 for k in keys})
        return tuple(row[k] for k in keys) + (None,)
    if average == "micro":
        a = r["micro avg"] if "micro avg" in r else {k: r["accuracy"] for k in keys}
        return tuple(a[k] for k in keys) + (None,)
    if average:
        return tuple(r[average + " avg"][k] for k in keys) + (None,)
    return tuple(np.array([r[str(n)][k] for n in names]) for k in keys + ("support",))


def precision_score(y_true, y_pred, average="binary", **k):
    return precision_recall_fscore_support(y_true, y_pred, average=average, **k)[0]


def recall_score(y_true, y_pred, average="binary", **k):
    return precision_recall_fscore_support(y_true, y_pred, average=average, **k)[1]


def f1_score(y_true, y_pred, average="binary", **k):
    return precision_recall_fscore_support(y_true, y_pred, average=average, **k)[2]


def r2_score(y_true, y_pred, **k):
    if k:
        _gap("r2_score options")
    y, p = _vector(y_true).astype(float), _vector(y_pred).astype(float)
    num, den = ((y - p) ** 2).sum(), ((y - y.mean()) ** 2).sum()
    return 1.0 - num / den if den else (1.0 if not num else 0.0)


def mean_squared_error(y_true, y_pred, **k):
    if k:
        _gap("mean_squared_error options")
    return float(((_vector(y_true).astype(float) - _vector(y_pred).astype(float)) ** 2).mean())


def confusion_matrix(y_true, y_pred, labels=None):
    a, b = _labels(y_true, y_pred)
    labels = sorted(set(a) | set(b)) if labels is None else list(labels)
    return np.array([[sum(x == r and y == c for x, y in zip(a, b)) for c in labels] for r in labels])


def classification_report(y_true, y_pred, labels=None, target_names=None, sample_weight=None, digits=2, output_dict=False,
                          zero_division="warn"):
    if sample_weight is not None or not output_dict:
        from .minipandas import StubGap
        raise StubGap("classification_report options")
    a, b = _labels(y_true, y_pred)
    present = sorted(set(a) | set(b))
    given = labels is not None
    labels = list(labels) if given else present
    if target_names is not None and len(labels) != len(target_names):
        if not given:
            raise ValueError("Number of classes, %d, does not match size of target_names, %d. Try specifying the labels "
                             "parameter" % (len(labels), len(target_names)))
    names = list(target_names) if target_names is not None else [str(x) for x in labels]

    def div(x, y):
        return x / float(y) if y else 0.0

    def row(p, r, n):
        return {"precision": p, "recall": r, "f1-score": div(2 * p * r, p + r), "support": n}
    rows = []
    for s in labels:
        hit = sum(x == s and y == s for x, y in zip(a, b))
        rows.append(row(div(hit, b.count(s)), div(hit, a.count(s)), a.count(s)))
    out = dict(zip(names, rows))
    total = sum(r["support"] for r in rows)
    if not given or set(labels) == set(present):
        out["accuracy"] = accuracy_score(a, b)
    else:
        hit = sum(x == y and x in labels for x, y in zip(a, b))
        out["micro avg"] = row(div(hit, sum(y in labels for y in b)), div(hit, sum(x in labels for x in a)), total)
    for name, w in (("macro avg", [1.0] * len(rows)), ("weighted avg", [float(r["support"]) for r in rows])):
        n = sum(w)
        out[name] = {k: div(sum(r[k] * x for r, x in zip(rows, w)), n) for k in ("precision", "recall", "f1-score")}
        out[name]["support"] = total
    return out


def _set(m, *names):
    for n in names:
        setattr(m, n, globals()[n])


def _gone(name):
    raise AttributeError(name)


def register(stubs):
    def top(m):
        import importlib
        m.__getattr__ = lambda n: importlib.import_module("sklearn." + n) if "sklearn." + n in stubs else _gone(n)
    stubs["sklearn"] = top
    stubs["sklearn.metrics"] = lambda m: _set(m, "roc_curve", "auc", "roc_auc_score", "accuracy_score", "confusion_matrix",
                                              "classification_report", "precision_recall_fscore_support", "precision_score",
                                              "recall_score", "f1_score", "r2_score", "mean_squared_error")
    stubs["sklearn.base"] = lambda m: _set(m, "BaseEstimator", "TransformerMixin", "RegressorMixin", "ClassifierMixin", "clone")
    stubs["sklearn.exceptions"] = lambda m: _set(m, "NotFittedError", "UndefinedMetricWarning")
    stubs["sklearn.gaussian_process"] = lambda m: None
    stubs["sklearn.gaussian_process.kernels"] = lambda m: _set(m, "Kernel", "RBF")
    stubs["sklearn.utils"] = lambda m: _set(m, "check_array", "check_X_y")
    stubs["sklearn.utils.validation"] = lambda m: _set(m, "check_array", "check_X_y", "check_is_fitted", "column_or_1d")
    stubs["sklearn.utils.multiclass"] = lambda m: _set(m, "check_classification_targets")
    stubs["sklearn.preprocessing"] = lambda m: _set(m, "StandardScaler", "LabelEncoder", "OneHotEncoder", "OrdinalEncoder")
