"""What the transforms are documented to replace values by."""
import numpy as np
from scipy import stats


class MissingValuesCleaner:
    def transform(self, X):
        r, c = get_dimensions(X)
        X = np.array(X)
        for i in range(r):
            if self.strategy in ['mean', 'median', 'mode']:
                self.window.add_element([X[i][:]])
            for j in range(c):
                if X[i][j] in self.missing_value or np.isnan(X[i][j]):
                    X[i][j] = self._get_substitute(j)
        return X

    def partial_fit_transform(self, X, y=None):
        return self.transform(X)

    def partial_fit(self, X, y=None):
        X = np.asarray(X)
        if self.strategy in ['mean', 'median', 'mode']:
            self.window.add_element(X)
        return self

    def _get_substitute(self, column_index):
        if self.strategy == 'zero':
            return 0
        if self.strategy == 'custom':
            return self.new_value
        if self.strategy in ('mean', 'median', 'mode'):
            if self.window.is_empty():
                return self.new_value
            seen = np.array(self.window.get_queue())[:, column_index]
            if self.strategy == 'mean':
                return np.nanmean(seen)
            if self.strategy == 'median':
                return np.nanmedian(seen)
            return stats.mode(seen, nan_policy='omit')[0]


class WindowedMinmaxScaler:
    def partial_fit_transform(self, X, y=None):
        return self.transform(X)

    def partial_fit(self, X, y=None):
        self.window.add_element(X)
        return self

    def _get_min(self, column_index):
        if self.window.is_empty():
            return 0.
        return np.nanmin(np.array(self.window.get_queue())[:, column_index])

    def _get_max(self, column_index):
        if self.window.is_empty():
            return 1.
        return np.nanmax(np.array(self.window.get_queue())[:, column_index])

    def transform(self, X):
        r, c = get_dimensions(X)
        X = np.array(X)
        for i in range(r):
            row = np.copy([X[i][:]])
            for j in range(c):
                lo = self._get_min(j)
                hi = self._get_max(j)
                if hi - lo == 0:
                    X[i][j] = 0
                else:
                    X[i][j] = X[i][j]
            self.window.add_element(row)
        return X


class WindowedStandardScaler:
    def transform(self, X):
        r, c = get_dimensions(X)
        X = np.array(X)
        for i in range(r):
            row = np.copy([X[i][:]])
            for j in range(c):
                X[i][j] = (X[i][j] - self._get_mean(j)) / self._get_std(j)
            self.window.add_element(row)
        return X

    def partial_fit_transform(self, X, y=None):
        return self.transform(X)

    def partial_fit(self, X, y=None):
        self.window.add_element(X)
        return self

    def _get_mean(self, column_index):
        if self.window.is_empty():
            return 0.
        return np.nanmean(np.array(self.window.get_queue())[:, column_index])

    def _get_std(self, column_index):
        if self.window.is_empty():
            return 1.
        std = np.nanstd(np.array(self.window.get_queue())[:, column_index])
        return 1. if std == 0. else std
