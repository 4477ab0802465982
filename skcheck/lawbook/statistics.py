"""Reference definitions of split criteria, observers and split tests (read by laws.py, never imported)."""
import math
import numpy as np


class GaussianEstimator:
    def __init__(self):
        self._weight_sum = 0.0
        self._mean = 0.0
        self._variance_sum = 0.0
        self._NORMAL_CONSTANT = math.sqrt(2 * math.pi)

    def add_observation(self, value, weight):
        if value is None or math.isinf(value):
            return
        if self._weight_sum > 0.0:
            n = self._weight_sum + weight
            mean = self._mean + weight * (value - self._mean) / n
            self._variance_sum = self._variance_sum + weight * (value - self._mean) * (value - mean)
            self._mean = mean
            self._weight_sum = n
        else:
            self._mean = value
            self._weight_sum = weight

    def get_total_weight_observed(self):
        return self._weight_sum

    def get_mean(self):
        return self._mean

    def get_variance(self):
        if self._weight_sum > 1.0:
            return self._variance_sum / (self._weight_sum - 1.0)
        return 0.0

    def get_std_dev(self):
        return math.sqrt(self.get_variance())

    def probability_density(self, value):
        if self._weight_sum > 0.0:
            s = self.get_std_dev()
            if s > 0.0:
                return math.exp(-((value - self._mean) ** 2) / (2.0 * s * s)) / (self._NORMAL_CONSTANT * s)
            if value == self._mean:
                return 1.0
        return 0.0

    def estimated_weight_lessthan_equalto_greaterthan_value(self, value):
        equal = self.probability_density(value) * self._weight_sum
        s = self.get_std_dev()
        if s > 0.0:
            less = normal_probability((value - self._mean) / s) * self._weight_sum - equal
        elif value < self._mean:
            less = self._weight_sum - equal
        else:
            less = 0.0
        greater = self._weight_sum - equal - less
        if greater < 0.0:
            greater = 0.0
        return [less, equal, greater]


class GiniSplitCriterion:
    def get_merit_of_split(self, pre_split_dist, post_split_dist):
        total = 0.0
        for d in post_split_dist:
            total += sum(d.values())
        gini = 0.0
        for d in post_split_dist:
            gini += sum(d.values()) / total * self.compute_gini(d, sum(d.values()))
        return 1.0 - gini

    @staticmethod
    def compute_gini(dist, dist_sum_of_weights):
        gini = 1.0
        if dist_sum_of_weights != 0.0:
            for _, val in dist.items():
                gini = gini - (val / dist_sum_of_weights) ** 2
        return gini

    @staticmethod
    def get_range_of_merit(pre_split_dist):
        return 1.0


class HellingerDistanceCriterion:
    def __init__(self, min_branch_frac_option=0.01):
        self.min_branch_frac_option = min_branch_frac_option
        self.lowest_entropy = None
        self.best_idx = 0

    def get_merit_of_split(self, pre_split_dist, post_split_dist):
        if self.num_subsets_greater_than_frac(post_split_dist, self.min_branch_frac_option) < 2:
            return -np.inf
        return self.compute_hellinger(post_split_dist)

    @staticmethod
    def hellinger(dist):
        try:
            lp = dist[0][1]
            ln = dist[0][0]
            rp = dist[1][1]
            rn = dist[1][0]
        except KeyError:
            return 0
        n = ln + rn
        p = lp + rp
        return np.sqrt((np.sqrt(ln / n) - np.sqrt(lp / p)) ** 2 + (np.sqrt(rn / n) - np.sqrt(rp / p)) ** 2)

    def rule_hellinger(self, dist):
        try:
            lp = dist[0][1]
            ln = dist[0][0]
            rp = dist[1][1]
            rn = dist[1][0]
        except KeyError:
            return 0
        n = ln + rn
        p = lp + rp
        left = (np.sqrt(ln / n) - np.sqrt(lp / p)) ** 2
        right = (np.sqrt(rn / n) - np.sqrt(rp / p)) ** 2
        if left >= right:
            self.best_idx = 0
        else:
            self.best_idx = 1
        return np.sqrt(left + right)

    @staticmethod
    def get_range_of_merit(pre_split_dist):
        return np.log2(max(len(pre_split_dist), 2))

    @staticmethod
    def num_subsets_greater_than_frac(distributions, min_frac):
        total = 0.0
        for d in distributions:
            total += sum(d.values())
        n = 0
        for d in distributions:
            if sum(d.values()) / total > min_frac:
                n = n + 1
        return n


class InfoGainSplitCriterion(HellingerDistanceCriterion):
    def __init__(self, min_branch_frac_option=0.01):
        self.min_branch_frac_option = min_branch_frac_option

    def get_merit_of_split(self, pre_split_dist, post_split_dist):
        if self.num_subsets_greater_than_frac(post_split_dist, self.min_branch_frac_option) < 2:
            return -np.inf
        return self.compute_entropy(pre_split_dist) - self.compute_entropy(post_split_dist)

    def compute_entropy(self, dist):
        if isinstance(dist, dict):
            return self._compute_entropy_dict(dist)
        elif isinstance(dist, list):
            return self._compute_entropy_list(dist)

    @staticmethod
    def _compute_entropy_dict(dist):
        entropy = 0.0
        total = 0.0
        for _, d in dist.items():
            if d > 0.0:
                entropy = entropy - d * np.log2(d)
                total = total + d
        if total > 0.0:
            return (entropy + total * np.log2(total)) / total
        return 0.0

    def _compute_entropy_list(self, dists):
        total = 0.0
        for d in dists:
            total += sum(d.values())
        entropy = 0.0
        for d in dists:
            entropy += sum(d.values()) * self.compute_entropy(d)
        return entropy / total

    @staticmethod
    def num_subsets_greater_than_frac(distributions, min_frac):
        total = 0.0
        for d in distributions:
            total += sum(d.values())
        n = 0
        if total > 0:
            for d in distributions:
                if sum(d.values()) / total > min_frac:
                    n = n + 1
        return n


class InfoGainExpandCriterion(InfoGainSplitCriterion):
    def __init__(self, min_branch_frac_option=0.01):
        self.min_branch_frac_option = min_branch_frac_option
        self.lowest_entropy = None
        self.best_idx = 0

    def _compute_entropy_list(self, dists):
        total = 0.0
        for d in dists:
            total += sum(d.values())
        entropy = 0.0
        for i in range(len(dists)):
            e = self.compute_entropy(dists[i])
            if self.lowest_entropy is None or e < self.lowest_entropy:
                self.lowest_entropy = e
                self.best_idx = i
            entropy += sum(dists[i].values()) * e
        return entropy / total

    @staticmethod
    def num_subsets_greater_than_frac(distributions, min_frac):
        total = 0.0
        for d in distributions:
            total += sum(d.values())
        n = 0
        for d in distributions:
            if sum(d.values()) / total > min_frac:
                n = n + 1
        return n


class FoilGainExpandCriterion(InfoGainExpandCriterion):
    def __init__(self, min_branch_frac_option=0.01):
        self.min_branch_frac_option = min_branch_frac_option
        self.best_idx = 0
        self.class_idx = 0

    def get_merit_of_split(self, pre_split_dist, post_split_dist):
        if self.num_subsets_greater_than_frac(post_split_dist, self.min_branch_frac_option) < 2:
            return -np.inf
        a = self.compute_entropy(post_split_dist[0])
        b = self.compute_entropy(post_split_dist[1])
        self.best_idx = 0 if a >= b else 1
        gain = min(a, b) - self.compute_entropy(pre_split_dist)
        try:
            return post_split_dist[self.best_idx][self.class_idx] * gain
        except KeyError:
            return 0

    def get_range_of_merit(self, pre_split_dist):
        return np.log2(len(pre_split_dist))

    def compute_entropy(self, dist):
        try:
            return np.log2(dist[self.class_idx] / sum(dist.values()))
        except KeyError:
            return 0


class VarianceReductionSplitCriterion:
    def get_merit_of_split(self, pre_split_dist, post_split_dist):
        count = 0
        for d in post_split_dist:
            if d[0] >= 5.0:
                count = count + 1
        if count == len(post_split_dist):
            sdr = self.compute_SD(pre_split_dist)
            for d in post_split_dist:
                sdr = sdr - d[0] / pre_split_dist[0] * self.compute_SD(d)
            return sdr
        return 0.0

    @staticmethod
    def compute_SD(dist):
        n = dist[0]
        var = (dist[2] - dist[1] * dist[1] / n) / n
        return math.sqrt(var) if var > 0.0 else 0.0

    @staticmethod
    def get_range_of_merit(pre_split_dist):
        return 1.0


class IntraClusterVarianceReductionSplitCriterion(VarianceReductionSplitCriterion):
    @staticmethod
    def compute_SD(dist):
        return np.mean((dist[2] - dist[1] * dist[1] / dist[0]) / (dist[0] - 1))


class NominalAttributeClassObserver:
    def update(self, att_val, class_val, weight):
        if att_val is None:
            self._missing_weight_observed += weight
        else:
            try:
                self._att_val_dist_per_class[class_val]
            except KeyError:
                self._att_val_dist_per_class[class_val] = {att_val: 0.0}
            try:
                self._att_val_dist_per_class[class_val][att_val] += weight
            except KeyError:
                self._att_val_dist_per_class[class_val][att_val] = weight
        self._total_weight_observed += weight

    def probability_of_attribute_value_given_class(self, att_val, class_val):
        obs = self._att_val_dist_per_class.get(class_val, None)
        if obs is not None:
            value = obs[att_val] if att_val in obs else 0.0
            return (value + 1.0) / (sum(obs.values()) + len(obs))
        return 0.0


class NumericAttributeClassObserverGaussian:
    def update(self, att_val, class_val, weight):
        if att_val is None:
            return
        try:
            seen = self._att_val_dist_per_class[class_val]
            if att_val < self._min_value_observed_per_class[class_val]:
                self._min_value_observed_per_class[class_val] = att_val
            if att_val > self._max_value_observed_per_class[class_val]:
                self._max_value_observed_per_class[class_val] = att_val
        except KeyError:
            pass
        seen.add_observation(att_val, weight)

    def probability_of_attribute_value_given_class(self, att_val, class_val):
        if class_val in self._att_val_dist_per_class:
            return self._att_val_dist_per_class[class_val].probability_density(att_val)
        return 0.0

    def get_split_point_suggestions(self):
        suggested_split_values = SortedList()
        lo = np.inf
        hi = -np.inf
        for k in self._att_val_dist_per_class:
            if self._min_value_observed_per_class[k] < lo:
                lo = self._min_value_observed_per_class[k]
            if self._max_value_observed_per_class[k] > hi:
                hi = self._max_value_observed_per_class[k]
        if lo < np.inf:
            for i in range(self.num_bin_options):
                at = lo + (hi - lo) / (self.num_bin_options + 1.0) * (i + 1)
                if lo < at < hi:
                    suggested_split_values.add(at)
        return suggested_split_values

    def rule_split_point_suggestions(self):
        suggested_split_values = []
        lo = np.inf
        hi = -np.inf
        for k in self._att_val_dist_per_class:
            if self._min_value_observed_per_class[k] < lo:
                lo = self._min_value_observed_per_class[k]
            if self._max_value_observed_per_class[k] > hi:
                hi = self._max_value_observed_per_class[k]
        if lo < np.inf:
            for i in range(self.num_bin_options):
                at = lo + (hi - lo) / (self.num_bin_options + 1.0) * (i + 1)
                if lo < at < hi:
                    suggested_split_values.append(at)
        return suggested_split_values

    def get_class_dists_from_binary_split(self, split_value):
        lhs_dist = {}
        rhs_dist = {}
        for k, estimator in self._att_val_dist_per_class.items():
            if split_value < self._min_value_observed_per_class[k]:
                rhs_dist[k] = estimator.get_total_weight_observed()
            elif split_value >= self._max_value_observed_per_class[k]:
                lhs_dist[k] = estimator.get_total_weight_observed()
            else:
                parts = estimator.estimated_weight_lessthan_equalto_greaterthan_value(split_value)
                lhs_dist[k] = parts[0] + parts[1]
                rhs_dist[k] = parts[2]
        return [lhs_dist, rhs_dist]


class NumericAttributeRegressionObserver:

    def update(self, att_val, class_val, weight):
        if att_val is None:
            return
        if self._root is None:
            self._root = NumericAttributeRegressionObserver.Node(att_val, class_val, weight)
        else:
            self._root.insert_value(att_val, class_val, weight)


class NominalAttributeMultiwayTest:
    def branch_for_instance(self, X):
        if self._att_idx > len(X) or self._att_idx < 0:
            return -1
        return self._branch_mapping.get(X[self._att_idx], -1)

    def branch_rule(self, branch):
        return Predicate(self._att_idx, '==', self._reverse_branch_mapping[branch])

    def add_new_branch(self, att_val):
        n = max(self._branch_mapping.values()) + 1
        self._branch_mapping[att_val] = n
        self._reverse_branch_mapping[n] = att_val
        return n

    @staticmethod
    def max_branches():
        return -1

    def get_atts_test_depends_on(self):
        return [self._att_idx]


class NominalAttributeBinaryTest:
    def __init__(self, att_idx, att_value):
        self._att_idx = att_idx
        self._att_value = att_value

    def branch_for_instance(self, X):
        if self._att_idx > len(X) or self._att_idx < 0:
            return -1
        if X[self._att_idx] == self._att_value:
            return 0
        return 1

    def branch_rule(self, branch):
        if branch == 0:
            return Predicate(self._att_idx, '==', self._att_value)
        return Predicate(self._att_idx, '!=', self._att_value)

    @staticmethod
    def max_branches():
        return 2

    def get_atts_test_depends_on(self):
        return [self._att_idx]


class NumericAttributeBinaryTest:
    def __init__(self, att_idx, att_value, equal_passes_test):
        self._att_idx = att_idx
        self._att_value = att_value
        self._equals_passes_test = equal_passes_test

    def branch_for_instance(self, X):
        if self._att_idx > len(X) or self._att_idx < 0:
            return -1
        v = X[self._att_idx]
        if v < self._att_value or v == self._att_value and self._equals_passes_test:
            return 0
        return 1

    @staticmethod
    def max_branches():
        return 2

    def get_atts_test_depends_on(self):
        return [self._att_idx]

    def get_split_value(self):
        return self._att_value


class Predicate:
    def __init__(self, att_idx=None, operator=None, value=None):
        self.att_idx = att_idx
        self.operator = operator
        self.value = value

    @property
    def att_idx(self):
        return self._att_idx

    @att_idx.setter
    def att_idx(self, v):
        self._att_idx = v

    @property
    def operator(self):
        return self._operator

    @operator.setter
    def operator(self, v):
        self._operator = v

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        self._value = v

    def covers_instance(self, X):
        v = X[self._att_idx]
        if self._operator == '>':
            return v > self._value
        if self._operator == '<':
            return v < self._value
        if self._operator == '>=':
            return v >= self._value
        if self._operator == '<=':
            return v <= self._value
        if self._operator == '==' or self._operator == '=':
            return v == self._value
        if self._operator == '!=':
            return v != self._value
        return False


class NominalAttributeRegressionObserver:
    def update(self, att_val, target, weight=1.0):
        if att_val is None or weight is None:
            return
        try:
            self._statistics[att_val][0] += weight
            self._statistics[att_val][1] += weight * target
            self._statistics[att_val][2] += weight * target * target
        except KeyError:
            pass
