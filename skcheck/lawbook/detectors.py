"""Reference update laws of the drift detectors (read by laws.py, never imported)."""
from math import sqrt, log
import numpy as np
from scipy import stats


class DDM:
    """Gama et al. 2004: error rate p and its deviation s; alarm levels p_min + level * s_min."""

    def reset(self):
        self.in_concept_change = False
        self.in_warning_zone = False
        self.estimation = 0.0
        self.delay = 0.0
        self.sample_count = 1
        self.miss_prob = 1.0
        self.miss_std = 0.0
        self.miss_prob_sd_min = float('inf')
        self.miss_prob_min = float('inf')
        self.miss_sd_min = float('inf')

    def add_element(self, prediction):
        if self.in_concept_change:
            self.reset()
        p = self.miss_prob + (prediction - self.miss_prob) / self.sample_count
        s = sqrt(p * (1 - p) / self.sample_count)
        self.sample_count = self.sample_count + 1
        self.miss_prob = p
        self.miss_std = s
        self.estimation = p
        self.delay = 0
        self.in_concept_change = False
        self.in_warning_zone = False
        if self.sample_count >= self.min_instances:
            if p + s <= self.miss_prob_sd_min:
                self.miss_prob_min = p
                self.miss_sd_min = s
                self.miss_prob_sd_min = p + s
            if p + s > self.miss_prob_min + self.out_control_level * self.miss_sd_min:
                self.in_concept_change = True
            elif p + s > self.miss_prob_min + self.warning_level * self.miss_sd_min:
                self.in_warning_zone = True


class EDDM:
    """Baena-Garcia et al. 2006: mean and deviation of the distance between errors."""
    FDDM_OUTCONTROL = 0.9
    FDDM_WARNING = 0.95
    FDDM_MIN_NUM_INSTANCES = 30

    def reset(self):
        self.in_concept_change = False
        self.in_warning_zone = False
        self.delay = 0.0
        self.m_n = 1
        self.m_num_errors = 0
        self.m_d = 0
        self.m_lastd = 0
        self.m_mean = 0.0
        self.m_std_temp = 0.0
        self.m_m2s_max = 0.0
        self.estimation = 0.0

    def add_element(self, prediction):
        if self.in_concept_change:
            self.reset()
        self.in_concept_change = False
        self.m_n = self.m_n + 1
        if prediction == 1:
            self.in_warning_zone = False
            self.delay = 0
            self.m_num_errors = self.m_num_errors + 1
            self.m_lastd = self.m_d
            self.m_d = self.m_n - 1
            d = self.m_d - self.m_lastd
            old = self.m_mean
            self.m_mean = old + (d - old) / self.m_num_errors
            self.estimation = self.m_mean
            self.m_std_temp = self.m_std_temp + (d - self.m_mean) * (d - old)
            m2s = self.m_mean + 2 * sqrt(self.m_std_temp / self.m_num_errors)
            if self.m_n >= self.FDDM_MIN_NUM_INSTANCES:
                if m2s > self.m_m2s_max:
                    self.m_m2s_max = m2s
                elif self.m_num_errors > self.m_min_num_errors:
                    if m2s / self.m_m2s_max < self.FDDM_OUTCONTROL:
                        self.in_concept_change = True
                    elif m2s / self.m_m2s_max < self.FDDM_WARNING:
                        self.in_warning_zone = True


class PageHinkley:
    """Cumulated difference between the values and their mean, with forgetting."""

    def reset(self):
        self.in_concept_change = False
        self.in_warning_zone = False
        self.estimation = 0.0
        self.delay = 0.0
        self.sample_count = 1
        self.x_mean = 0.0
        self.sum = 0.0

    def add_element(self, x):
        if self.in_concept_change:
            self.reset()
        self.x_mean = self.x_mean + (x - self.x_mean) / self.sample_count
        self.sum = max(0., self.alpha * self.sum + (x - self.x_mean - self.delta))
        self.sample_count = self.sample_count + 1
        self.estimation = self.x_mean
        self.delay = 0
        self.in_warning_zone = False
        self.in_concept_change = self.sample_count >= self.min_instances and self.sum > self.threshold


class HDDM_A:
    """Frias-Blanco et al. 2014, A-test."""

    def reset(self):
        self.in_concept_change = False
        self.in_warning_zone = False
        self.estimation = 0.0
        self.delay = 0.0
        self.n_min = 0
        self.c_min = 0
        self.total_n = 0
        self.total_c = 0
        self.n_max = 0
        self.c_max = 0
        self.c_estimation = 0
        self.n_estimation = 0

    def add_element(self, prediction):
        self.total_n = self.total_n + 1
        self.total_c = self.total_c + prediction
        if self.n_min == 0:
            self.n_min = self.total_n
            self.c_min = self.total_c
        if self.n_max == 0:
            self.n_max = self.total_n
            self.c_max = self.total_c
        now = self.bound(self.total_n)
        if self.total_c / self.total_n + now <= self.c_min / self.n_min + self.bound(self.n_min):
            self.c_min = self.total_c
            self.n_min = self.total_n
        if self.total_c / self.total_n - now >= self.c_max / self.n_max - self.bound(self.n_max):
            self.c_max = self.total_c
            self.n_max = self.total_n
        rise = self.total_c / self.total_n - self.c_min / self.n_min
        fall = self.c_max / self.n_max - self.total_c / self.total_n
        down = self.two_side_option and self.n_max != self.total_n and fall >= self.gap(self.n_max, self.drift_confidence)
        self.in_concept_change = False
        self.in_warning_zone = False
        if self.n_min != self.total_n:
            if rise >= self.gap(self.n_min, self.drift_confidence):
                self.in_concept_change = True
            elif rise >= self.gap(self.n_min, self.warning_confidence):
                self.in_warning_zone = True
        if self.in_concept_change:
            self.n_estimation = self.total_n - self.n_min
            self.c_estimation = self.total_c - self.c_min
            self.clear()
        elif down:
            self.n_estimation = self.total_n - self.n_max
            self.c_estimation = self.total_c - self.c_max
            self.clear()
        if self.total_n >= self.n_estimation:
            self.c_estimation = 0
            self.n_estimation = 0
            self.estimation = self.total_c / self.total_n
            self.delay = self.total_n
        else:
            self.estimation = self.c_estimation / self.n_estimation
            self.delay = self.n_estimation

    def clear(self):
        self.n_min = 0
        self.n_max = 0
        self.total_n = 0
        self.c_min = 0
        self.c_max = 0
        self.total_c = 0

    def bound(self, n):
        return sqrt(log(1.0 / self.drift_confidence) / (2 * n))

    def gap(self, n, confidence):
        return sqrt((self.total_n - n) / (n * self.total_n) / 2 * log(2.0 / confidence))


class HDDM_W:
    """Frias-Blanco et al. 2014, W-test: exponentially weighted averages."""

    def reset(self):
        self.in_concept_change = False
        self.in_warning_zone = False
        self.estimation = 0.0
        self.total = self.SampleInfo()
        self.sample1_decr_monitor = self.SampleInfo()
        self.sample1_incr_monitor = self.SampleInfo()
        self.sample2_decr_monitor = self.SampleInfo()
        self.sample2_incr_monitor = self.SampleInfo()
        self.incr_cutpoint = float('inf')
        self.decr_cutpoint = float('inf')
        self.width = 0
        self.delay = 0

    def add_element(self, prediction):
        self.width = self.width + 1
        self.fold(self.total, prediction)
        bound = sqrt(self.total.independent_bounded_condition_sum * log(1.0 / self.drift_confidence) / 2)
        if self.total.EWMA_estimator + bound < self.incr_cutpoint:
            self.incr_cutpoint = self.total.EWMA_estimator + bound
            self.sample1_incr_monitor.EWMA_estimator = self.total.EWMA_estimator
            self.sample1_incr_monitor.independent_bounded_condition_sum = self.total.independent_bounded_condition_sum
            self.sample2_incr_monitor = self.SampleInfo()
            self.delay = 0
        else:
            self.delay = self.delay + 1
            self.fold(self.sample2_incr_monitor, prediction)
        if self.above(self.sample1_incr_monitor, self.sample2_incr_monitor, self.drift_confidence):
            self.reset()
            self.in_concept_change = True
            self.in_warning_zone = False
            return
        self.in_concept_change = False
        self.in_warning_zone = self.above(self.sample1_incr_monitor, self.sample2_incr_monitor, self.warning_confidence)
        bound = sqrt(self.total.independent_bounded_condition_sum * log(1.0 / self.drift_confidence) / 2)
        if self.total.EWMA_estimator - bound > self.decr_cutpoint:
            self.decr_cutpoint = self.total.EWMA_estimator - bound
            self.sample1_decr_monitor.EWMA_estimator = self.total.EWMA_estimator
            self.sample1_decr_monitor.independent_bounded_condition_sum = self.total.independent_bounded_condition_sum
            self.sample2_decr_monitor = self.SampleInfo()
        else:
            self.fold(self.sample2_decr_monitor, prediction)
        if self.two_side_option and self.above(self.sample2_decr_monitor, self.sample1_decr_monitor, self.drift_confidence):
            self.reset()
        self.estimation = self.total.EWMA_estimator

    def fold(self, info, value):
        if info.EWMA_estimator < 0:
            info.EWMA_estimator = value
            info.independent_bounded_condition_sum = 1
        else:
            a = self.lambda_option
            info.EWMA_estimator = a * value + (1 - a) * info.EWMA_estimator
            info.independent_bounded_condition_sum = a * a + (1 - a) * (1 - a) * info.independent_bounded_condition_sum

    def above(self, low, high, confidence):
        if low.EWMA_estimator < 0 or high.EWMA_estimator < 0:
            return False
        s = low.independent_bounded_condition_sum + high.independent_bounded_condition_sum
        return high.EWMA_estimator - low.EWMA_estimator > sqrt(s * log(1 / confidence) / 2)


class KSWIN:
    """Raab et al. 2020: the last stat_size elements against a draw from those before."""

    def add_element(self, input_value):
        self.n = self.n + 1
        self.change_detected = False
        window = self.window
        if window.shape[0] >= self.window_size:
            window = np.delete(window, 0)
            (st, self.p_value) = stats.ks_2samp(np.random.choice(window[:-self.stat_size], self.stat_size), window[-self.stat_size:], mode="exact")
            if self.p_value <= self.alpha and st > 0.1:
                self.change_detected = True
                window = window[-self.stat_size:]
        self.window = np.concatenate([window, [input_value]])


class ADWIN:
    """Bifet and Gavalda 2007: exponential histogram."""
    MAX_BUCKETS = 5

    def add_element(self, value):
        before = self._width
        self._width = before + 1
        self.__insert_element_bucket(0, value, self.list_row_bucket.first)
        if before > 0:
            self._variance = self._variance + before * (value - self._total / before) ** 2 / (before + 1)
        self._total = self._total + value
        self.__compress_buckets()

    def __insert_element_bucket(self, variance, value, node):
        node.insert_bucket(value, variance)
        self.bucket_number = self.bucket_number + 1
        if self.bucket_number > self.bucket_num_max:
            self.bucket_num_max = self.bucket_number

    def __compress_buckets(self):
        pass

    @staticmethod
    def bucket_size(row):
        return 2 ** row

    def delete_element(self):
        node = self.list_row_bucket.last
        n1 = 2 ** self.last_bucket_row
        left = self._width - n1
        total = self._total - node.get_total(0)
        u1 = node.get_total(0) / n1
        self._variance = self._variance - (node.get_variance(0) + n1 * left * (u1 - total / left) ** 2 / (n1 + left))
        self._width = left
        self._total = total
        self.bucket_number = self.bucket_number - 1
        node.remove_bucket()
        if node.bucket_size_row == 0:
            self.list_row_bucket.remove_from_tail()
            self.last_bucket_row = self.last_bucket_row - 1
        return n1

    def __bln_cut_expression(self, n0, n1, u0, u1, v0, v1, abs_value, delta):
        dd = np.log(2 * np.log(self._width) / delta)
        m = 1 / (n0 - self.mint_min_window_length + 1) + 1 / (n1 - self.mint_min_window_length + 1)
        return abs(abs_value) > np.sqrt(2 * m * self._variance / self._width * dd) + 2 / 3 * dd * m


class List:
    def add_to_head(self):
        self._first = Item(self._first, None)
        if self._last is None:
            self._last = self._first

    def add_to_tail(self):
        self._last = Item(None, self._last)
        if self._first is None:
            self._first = self._last
        self._count = self._count + 1

    def remove_from_tail(self):
        self._last = self._last.get_previous()
        if self._last is None:
            self._first = None
        else:
            self._last.set_next_item(None)
        self._count = self._count - 1


class Item:
    def insert_bucket(self, value, variance):
        self.bucket_total[self.bucket_size_row] = value
        self.bucket_variance[self.bucket_size_row] = variance
        self.bucket_size_row = self.bucket_size_row + 1

    def remove_bucket(self):
        self.compress_bucket_row(1)

    def get_next_item(self):
        return self.next

    def set_next_item(self, next_item):
        self.next = next_item

    def get_previous(self):
        return self.previous

    def set_previous(self, previous):
        self.previous = previous

    def get_total(self, index):
        return self.bucket_total[index]

    def get_variance(self, index):
        return self.bucket_variance[index]

    def set_total(self, value, index):
        self.bucket_total[index] = value

    def set_variance(self, value, index):
        self.bucket_variance[index] = value
