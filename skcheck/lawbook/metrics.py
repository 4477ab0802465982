"""Reference definitions of the metrics (read by laws.py, never imported)."""
import numpy as np
from timeit import default_timer as timer
from skmultiflow.utils.data_structures import FastBuffer


class RegressionMeasurements:
    def __init__(self):
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.sample_count = 0
        self.last_true_label = None
        self.last_prediction = None

    def reset(self):
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.sample_count = 0
        self.last_true_label = None
        self.last_prediction = None

    def add_result(self, y_true, y_pred):
        self.last_true_label = y_true
        self.last_prediction = y_pred
        self.total_square_error = self.total_square_error + (y_true - y_pred) ** 2
        self.average_error = self.average_error + np.absolute(y_true - y_pred)
        self.sample_count = self.sample_count + 1

    def get_mean_square_error(self):
        if self.sample_count == 0:
            return 0.0
        return self.total_square_error / self.sample_count

    def get_average_error(self):
        if self.sample_count == 0:
            return 0.0
        return self.average_error / self.sample_count

    def get_last(self):
        return self.last_true_label, self.last_prediction


class WindowRegressionMeasurements(RegressionMeasurements):
    def __init__(self, window_size=200):
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.last_true_label = None
        self.last_prediction = None
        self.total_square_error_correction = FastBuffer(window_size)
        self.average_error_correction = FastBuffer(window_size)
        self.window_size = window_size

    @property
    def sample_count(self):
        return self.total_square_error_correction.get_current_size()

    def reset(self):
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.last_true_label = None
        self.last_prediction = None
        self.total_square_error_correction = FastBuffer(self.window_size)
        self.average_error_correction = FastBuffer(self.window_size)


class MultiTargetRegressionMeasurements:
    def __init__(self):
        self.n_targets = 0
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.sample_count = 0
        self.last_true_label = None
        self.last_prediction = None

    @property
    def _sample_count(self):
        return self.sample_count

    def reset(self):
        self.n_targets = 0
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.sample_count = 0
        self.last_true_label = None
        self.last_prediction = None

    def add_result(self, y, prediction):
        self.last_true_label = y
        self.last_prediction = prediction
        if hasattr(y, 'size'):
            self.n_targets = y.size
        elif hasattr(y, 'append'):
            self.n_targets = len(y)
        else:
            self.n_targets = 0
        self.total_square_error = self.total_square_error + (y - prediction) ** 2
        self.average_error = self.average_error + np.absolute(y - prediction)
        self.sample_count = self.sample_count + 1

    def get_average_mean_square_error(self):
        if self._sample_count == 0:
            return 0.0
        return np.sum(self.total_square_error / self._sample_count) / self.n_targets

    def get_average_absolute_error(self):
        if self._sample_count == 0:
            return 0.0
        return np.sum(self.average_error / self._sample_count) / self.n_targets

    def get_average_root_mean_square_error(self):
        if self._sample_count == 0:
            return 0.0
        mse = self.total_square_error / self._sample_count
        return np.sum(np.sqrt(mse, out=np.zeros_like(mse), where=mse >= 0.0)) / self.n_targets

    def get_last(self):
        return self.last_true_label, self.last_prediction


class WindowMultiTargetRegressionMeasurements(MultiTargetRegressionMeasurements):
    def __init__(self, window_size=200):
        self.n_targets = 0
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.last_true_label = None
        self.last_prediction = None
        self.total_square_error_correction = FastBuffer(window_size)
        self.average_error_correction = FastBuffer(window_size)
        self.window_size = window_size

    @property
    def _sample_count(self):
        return self.total_square_error_correction.get_current_size()

    def reset(self):
        self.n_targets = 0
        self.total_square_error = 0.0
        self.average_error = 0.0
        self.last_true_label = None
        self.last_prediction = None
        self.total_square_error_correction = FastBuffer(self.window_size)
        self.average_error_correction = FastBuffer(self.window_size)


class RunningTimeMeasurements:
    def __init__(self):
        self._training_start = None
        self._testing_start = None
        self._training_time = 0
        self._testing_time = 0
        self._sample_count = 0
        self._total_time = 0

    def reset(self):
        self._training_time = 0
        self._testing_time = 0
        self._sample_count = 0
        self._total_time = 0

    def compute_training_time_begin(self):
        self._training_start = timer()

    def compute_training_time_end(self):
        self._training_time = self._training_time + (timer() - self._training_start)

    def compute_testing_time_begin(self):
        self._testing_start = timer()

    def compute_testing_time_end(self):
        self._testing_time = self._testing_time + (timer() - self._testing_start)

    def update_time_measurements(self, increment=1):
        if increment > 0:
            self._sample_count = self._sample_count + increment
        else:
            self._sample_count = self._sample_count + 1
        self._total_time = self._training_time + self._testing_time

    def get_current_training_time(self):
        return self._training_time

    def get_current_testing_time(self):
        return self._testing_time

    def get_current_total_running_time(self):
        return self._total_time


class FastBuffer:
    def add_element(self, element_list):
        if self.current_size + len(element_list) <= self.max_size:
            for i in range(len(element_list)):
                self.buffer.append(element_list[i])
            self.current_size = self.current_size + len(element_list)
            return None
        aux = []
        for element in element_list:
            if self.is_full():
                aux.append(self.get_next_element())
            self.buffer.append(element)
            self.current_size = self.current_size + 1
        return aux

    def get_next_element(self):
        result = None
        if len(self.buffer) > 0:
            result = self.buffer.pop(0)
            self.current_size = self.current_size - 1
        return result

    def is_full(self):
        return self.current_size == self.max_size

    def is_empty(self):
        return self.current_size == 0

    def get_current_size(self):
        return self.current_size

    def get_queue(self):
        return self.buffer


def hamming_score(true_labels, predicts):
    if not hasattr(true_labels, 'shape'):
        true_labels = np.asarray(true_labels)
    if not hasattr(predicts, 'shape'):
        predicts = np.asarray(predicts)
    N, L = true_labels.shape
    return np.sum((true_labels == predicts) * 1.0) / (N * L)


def j_index(true_labels, predicts):
    if not hasattr(true_labels, 'shape'):
        true_labels = np.asarray(true_labels)
    if not hasattr(predicts, 'shape'):
        predicts = np.asarray(predicts)
    N, L = true_labels.shape
    s = 0.0
    for i in range(N):
        inter = sum((true_labels[i, :] * predicts[i, :]) > 0)
        union = sum((true_labels[i, :] + predicts[i, :]) > 0)
        if union > 0:
            s += inter / union
        elif np.sum(true_labels[i, :]) == 0:
            s += 1
    return s / N


def exact_match(true_labels, predicts):
    if not hasattr(true_labels, 'shape'):
        true_labels = np.asarray(true_labels)
    if not hasattr(predicts, 'shape'):
        predicts = np.asarray(predicts)
    N, L = true_labels.shape
    return np.sum(np.sum((true_labels == predicts) * 1, axis=1) == L) / N


class ConfusionMatrix:
    def __init__(self, n_classes=2):
        if n_classes < 2:
            n_classes = 2
        self._init_n_classes = n_classes
        self.n_classes = n_classes
        self.sum_diag = 0.0

    def __setitem__(self, true_pred_tuple, sample_weight):
        if not isinstance(true_pred_tuple, tuple):
            raise KeyError()
        if sample_weight is None:
            sample_weight = 1.0
        true_idx = true_pred_tuple[0]
        pred_idx = true_pred_tuple[1]
        self.classes.update([true_idx, pred_idx])
        self.n_classes = len(self.classes)
        self.data[(true_idx, pred_idx)] += sample_weight
        if true_idx == pred_idx:
            self.sum_diag = self.sum_diag + sample_weight
        self.sum_row[true_idx] += sample_weight
        self.sum_col[pred_idx] += sample_weight

    def __getitem__(self, true_pred_tuple):
        if not isinstance(true_pred_tuple, tuple):
            raise KeyError()
        return self.data[true_pred_tuple]


class MultiLabelConfusionMatrix:
    def __setitem__(self, key, sample_weight):
        if not isinstance(key, tuple):
            raise KeyError()
        if sample_weight is None:
            sample_weight = 1.0
        if not 0 <= key[1] < 2 or not 0 <= key[2] < 2:
            raise ValueError()
        if key[0] > self._max_label:
            self._max_label = key[0]
            self.labels = set(range(key[0] + 1))
            self.n_labels = key[0] + 1
            self._reshape()
        self.data[key[0], key[1], key[2]] += sample_weight

    def _reshape(self):
        current_n_labels = self.data.shape[0]
        if self._max_label + 1 > current_n_labels:
            self.data = np.vstack((self.data, np.zeros((self._max_label + 1 - current_n_labels, 2, 2))))

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            raise KeyError()
        return self.data[key[0], key[1], key[2]]


class ClassificationPerformanceEvaluator:
    def __init__(self, n_classes=2):
        if n_classes < 2:
            n_classes = 2
        self._init_n_classes = n_classes
        self.n_samples = 0
        self.last_true = 0
        self.last_pred = 0
        self.weight_majority_classifier = 0.0
        self.weight_correct_no_change_classifier = 0.0
        self._total_weight_observed = 0.0

    def add_result(self, y_true, y_pred, sample_weight=1.0):
        self.n_samples = self.n_samples + 1
        if sample_weight > 0.0:
            self.confusion_matrix[(y_true, y_pred)] = sample_weight
            self._total_weight_observed = self._total_weight_observed + sample_weight
        if self.majority_class() == y_true:
            self.weight_majority_classifier = self.weight_majority_classifier + sample_weight
        if self.last_true == y_true:
            self.weight_correct_no_change_classifier = self.weight_correct_no_change_classifier + sample_weight
        self.last_true = y_true
        self.last_pred = y_pred

    def majority_class(self):
        if self._total_weight_observed == 0:
            return 0
        majority_idx = 0
        max_prob = 0.0
        for i in sorted(self.confusion_matrix.classes):
            if self.confusion_matrix.sum_row[i] / self.n_samples > max_prob:
                max_prob = self.confusion_matrix.sum_row[i] / self.n_samples
                majority_idx = i
        return majority_idx

    def accuracy_score(self):
        if self.n_samples > 0:
            return self.confusion_matrix.sum_diag / self.n_samples
        return 0.0

    def kappa_t_score(self):
        if self._total_weight_observed > 0.0:
            pe = self.weight_correct_no_change_classifier / self.n_samples if self.n_samples > 0 else 0.0
            if pe != 1.0:
                return (self.accuracy_score() - pe) / (1.0 - pe)
        return 0.0

    def kappa_m_score(self):
        if self._total_weight_observed > 0.0:
            pe = self.weight_majority_classifier / self.n_samples if self.n_samples > 0 else 0.0
            if pe != 1.0:
                return (self.accuracy_score() - pe) / (1.0 - pe)
        return 0.0

    def kappa_score(self):
        if self._total_weight_observed > 0.0:
            pe = 0.0
            for i in self.confusion_matrix.classes:
                pe += self.confusion_matrix.sum_row[i] / self.n_samples * (self.confusion_matrix.sum_col[i] / self.n_samples)
            if pe != 1.0:
                return (self.accuracy_score() - pe) / (1.0 - pe)
        return 0.0

    def precision_score(self, class_value=-1):
        n_classes = self.confusion_matrix.n_classes
        if class_value == -1:
            if n_classes == 2:
                return self._precision_per_class(1)
            total = 0.0
            for i in self.confusion_matrix.classes:
                total += self._precision_per_class(i)
            return total / n_classes
        return self._precision_per_class(class_value)

    def recall_score(self, class_value=-1):
        n_classes = self.confusion_matrix.n_classes
        if class_value == -1:
            if n_classes == 2:
                return self._recall_per_class(1)
            total = 0.0
            for i in self.confusion_matrix.classes:
                total += self._recall_per_class(i)
            return total / n_classes
        return self._recall_per_class(class_value)

    def _precision_per_class(self, class_value):
        if self.confusion_matrix.n_classes > 0 and class_value >= 0 and self.confusion_matrix.sum_col[class_value] > 0.0:
            return self.confusion_matrix[(class_value, class_value)] / self.confusion_matrix.sum_col[class_value]
        return 0.0

    def _recall_per_class(self, class_value):
        if self.confusion_matrix.n_classes > 0 and class_value >= 0 and self.confusion_matrix.sum_row[class_value] > 0.0:
            return self.confusion_matrix[(class_value, class_value)] / self.confusion_matrix.sum_row[class_value]
        return 0.0

    def f1_score(self, class_value=-1):
        n_classes = self.confusion_matrix.n_classes
        if n_classes == 2:
            return self._f1_per_class(1)
        if class_value == -1:
            sum_f1 = 0.0
            for i in self.confusion_matrix.classes:
                sum_f1 += self._f1_per_class(i)
            return sum_f1 / n_classes
        return self._f1_per_class(class_value)

    def _f1_per_class(self, class_value):
        if self.confusion_matrix.n_classes > 0:
            precision = self.precision_score(class_value)
            recall = self.recall_score(class_value)
            if precision + recall > 0.0:
                return 2.0 * precision * recall / (precision + recall)
        return 0.0

    def get_last(self):
        return self.last_true, self.last_pred


class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEvaluator):
    def add_result(self, y_true, y_pred, sample_weight=1.0):
        if len(self._queue) == self.window_size:
            gone = self._queue.popleft()
            self.confusion_matrix[(gone[0], gone[1])] = -gone[2]
            if gone[3] == 1:
                self.weight_majority_classifier = self.weight_majority_classifier - gone[2]
            if gone[4] == 1:
                self.weight_correct_no_change_classifier = self.weight_correct_no_change_classifier - gone[2]
        else:
            self.n_samples = self.n_samples + 1
        if sample_weight > 0.0:
            self.confusion_matrix[(y_true, y_pred)] = sample_weight
            self._total_weight_observed = self._total_weight_observed + sample_weight
        majority = 0
        if self.majority_class() == y_true:
            self.weight_majority_classifier = self.weight_majority_classifier + sample_weight
            majority = 1
        no_change = 0
        if self.last_true == y_true:
            self.weight_correct_no_change_classifier = self.weight_correct_no_change_classifier + sample_weight
            no_change = 1
        self.last_true = y_true
        self.last_pred = y_pred
        self._queue.append((y_true, y_pred, sample_weight, majority, no_change))


class MultiLabelClassificationPerformanceEvaluator:
    def add_result(self, y_true, y_pred, sample_weight=1.0):
        if not _check_multi_label_inputs(y_true, y_pred):
            return
        self.n_samples = self.n_samples + 1
        is_equal = 1
        for i in range(len(y_true)):
            self.confusion_matrix[(i, y_true[i], y_pred[i])] = sample_weight
            if y_true[i] != y_pred[i]:
                is_equal = 0
        self.exact_match_cnt = self.exact_match_cnt + is_equal
        inter_val = np.sum(np.logical_and(y_true, y_pred))
        union_val = np.sum(np.logical_or(y_true, y_pred))
        if union_val > 0:
            self.jaccard_sum = self.jaccard_sum + inter_val / union_val
        self.last_true = y_true
        self.last_pred = y_pred

    def get_last(self):
        return self.last_true, self.last_pred


class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassificationPerformanceEvaluator):
    def add_result(self, y_true, y_pred, sample_weight=1.0):
        if not _check_multi_label_inputs(y_true, y_pred):
            return
        if len(self._queue) == self.window_size:
            gone = self._queue.popleft()
            for i in range(len(gone[0])):
                self.confusion_matrix[(i, gone[0][i], gone[1][i])] = -gone[2]
            self.exact_match_cnt = self.exact_match_cnt - gone[3]
            self.jaccard_sum = self.jaccard_sum - gone[4]
        else:
            self.n_samples = self.n_samples + 1
        is_equal = 1
        for i in range(len(y_true)):
            self.confusion_matrix[(i, y_true[i], y_pred[i])] = sample_weight
            if y_true[i] != y_pred[i]:
                is_equal = 0
        self.exact_match_cnt = self.exact_match_cnt + is_equal
        inter_val = np.sum(np.logical_and(y_true, y_pred))
        union_val = np.sum(np.logical_or(y_true, y_pred))
        jaccard = 0.0
        if union_val > 0:
            jaccard = inter_val / union_val
            self.jaccard_sum = self.jaccard_sum + jaccard
        self.last_true = y_true
        self.last_pred = y_pred
        self._queue.append((y_true, y_pred, sample_weight, is_equal, jaccard))
