"""Concepts of the stream generators as published (read by laws.py, never imported)."""
import numpy as np


class SEAGenerator:
    """Street and Kim 2001: class 1 where the first two attributes add up to more than theta."""

    @staticmethod
    def concept_0(a, b, c):
        return 1 if a + b > 8 else 0

    @staticmethod
    def concept_1(a, b, c):
        return 1 if a + b > 9 else 0

    @staticmethod
    def concept_2(a, b, c):
        return 1 if a + b > 7 else 0

    @staticmethod
    def concept_3(a, b, c):
        return 1 if a + b > 9.5 else 0

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            while True:
                a = 10 * self._random_state.rand()
                b = 10 * self._random_state.rand()
                c = 10 * self._random_state.rand()
                group = self._classification_functions[self._classification_function_idx](a, b, c)
                if not self._balance_classes:
                    break
                if (group == 0) == self.next_class_should_be_zero:
                    self.next_class_should_be_zero = not self.next_class_should_be_zero
                    break
            if 0.01 + self._random_state.rand() <= self._noise_percentage:
                group = 1 if group == 0 else 0
            data[j, 0] = a
            data[j, 1] = b
            data[j, 2] = c
            data[j, 3] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y


class SineGenerator:
    """Gama et al. 2004."""

    @staticmethod
    def concept_0(a, b):
        return 1 if a < np.sin(b) else 0

    @staticmethod
    def concept_1(a, b):
        return 1 if a >= np.sin(b) else 0

    @staticmethod
    def concept_2(a, b):
        return 1 if a < 0.5 + 0.3 * np.sin(3 * np.pi * b) else 0

    @staticmethod
    def concept_3(a, b):
        return 1 if a >= 0.5 + 0.3 * np.sin(3 * np.pi * b) else 0

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            while True:
                a = self._random_state.rand()
                b = self._random_state.rand()
                group = self._classification_functions[self._classification_function_idx](a, b)
                if not self._balance_classes:
                    break
                if (group == 0) == self.next_class_should_be_zero:
                    self.next_class_should_be_zero = not self.next_class_should_be_zero
                    break
            data[j, 0] = a
            data[j, 1] = b
            if self._has_noise:
                for i in range(2, 4):
                    data[j, i] = self._random_state.rand()
                data[j, 4] = group
            else:
                data[j, 2] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y


class STAGGERGenerator:
    """Schlimmer and Granger 1986: small and red; green or circular; medium or large."""

    @staticmethod
    def concept_0(size, color, shape):
        return 1 if size == 0 and color == 0 else 0

    @staticmethod
    def concept_1(size, color, shape):
        return 1 if color == 2 or shape == 0 else 0

    @staticmethod
    def concept_2(size, color, shape):
        return 1 if size == 1 or size == 2 else 0

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            while True:
                a = self._random_state.randint(3)
                b = self._random_state.randint(3)
                c = self._random_state.randint(3)
                group = self._classification_functions[self._classification_function_idx](a, b, c)
                if not self._balance_classes:
                    break
                if (group == 0) == self.next_class_should_be_zero:
                    self.next_class_should_be_zero = not self.next_class_should_be_zero
                    break
            data[j, 0] = a
            data[j, 1] = b
            data[j, 2] = c
            data[j, 3] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y


class MIXEDGenerator:
    """Gama et al. 2004: at least two of three conditions."""

    @staticmethod
    def concept_0(v, w, x, y):
        n = (1 if v == 1 else 0) + (1 if w == 1 else 0) + (1 if y < 0.5 + 0.3 * np.sin(3 * np.pi * x) else 0)
        return 0 if n >= 2 else 1

    @staticmethod
    def concept_1(v, w, x, y):
        n = (1 if v == 1 else 0) + (1 if w == 1 else 0) + (1 if y < 0.5 + 0.3 * np.sin(3 * np.pi * x) else 0)
        return 1 if n >= 2 else 0

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            while True:
                a = 0 if self._random_state.rand() < 0.5 else 1
                b = 0 if self._random_state.rand() < 0.5 else 1
                c = self._random_state.rand()
                d = self._random_state.rand()
                group = self._classification_functions[self._classification_function_idx](a, b, c, d)
                if not self._balance_classes:
                    break
                if (group == 0) == self.next_class_should_be_zero:
                    self.next_class_should_be_zero = not self.next_class_should_be_zero
                    break
            data[j, 0] = a
            data[j, 1] = b
            data[j, 2] = c
            data[j, 3] = d
            data[j, 4] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y


class AGRAWALGenerator:
    """Agrawal et al. 1993; group A is class 0."""

    @staticmethod
    def concept_0(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        return 1 if 40 <= age and age < 60 else 0

    @staticmethod
    def concept_1(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        low = 50000 if age < 40 else 75000 if age < 60 else 25000
        return 0 if low <= salary and salary <= low + 50000 else 1

    @staticmethod
    def concept_2(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        if age < 40:
            return 0 if elevel <= 1 else 1
        if age < 60:
            return 0 if 1 <= elevel and elevel <= 3 else 1
        return 0 if elevel >= 2 else 1

    @staticmethod
    def concept_3(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        if age < 40:
            low = 25000 if elevel <= 1 else 50000
        elif age < 60:
            low = 50000 if 1 <= elevel and elevel <= 3 else 75000
        else:
            low = 50000 if elevel >= 2 else 25000
        return 0 if low <= salary and salary <= low + 50000 else 1

    @staticmethod
    def concept_4(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        if age < 40:
            if 50000 <= salary and salary <= 100000:
                return 0 if 100000 <= loan and loan <= 300000 else 1
            return 0 if 200000 <= loan and loan <= 400000 else 1
        if age < 60:
            if 75000 <= salary and salary <= 125000:
                return 0 if 200000 <= loan and loan <= 400000 else 1
            return 0 if 300000 <= loan and loan <= 500000 else 1
        if 25000 <= salary and salary <= 75000:
            return 0 if 300000 <= loan and loan <= 500000 else 1
        return 0 if 75000 <= loan and loan <= 300000 else 1

    @staticmethod
    def recorded_4(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        # as found, the salary standing in for the loan: see KNOWN_FINDINGS.txt
        if age < 40:
            if 50000 <= salary and salary <= 100000:
                return 0 if 100000 <= loan and loan <= 300000 else 1
            return 0 if 200000 <= salary and salary <= 400000 else 1
        if age < 60:
            if 75000 <= salary and salary <= 125000:
                return 0 if 200000 <= salary and loan <= 400000 else 1
            return 0 if 300000 <= salary and salary <= 500000 else 1
        if 25000 <= salary and salary <= 75000:
            return 0 if 300000 <= loan and loan <= 500000 else 1
        return 0 if 75000 <= loan and loan <= 300000 else 1

    @staticmethod
    def concept_5(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        total = salary + commission
        low = 50000 if age < 40 else 75000 if age < 60 else 25000
        return 0 if low <= total and total <= low + 50000 else 1

    @staticmethod
    def concept_6(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        return 0 if 0.2 * (10 * (salary + commission) / 3 - loan - 100000) > 1 else 1

    @staticmethod
    def concept_7(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        return 0 if 2 * (salary + commission) / 3 - 5000 * elevel - 20000 > 1 else 1

    @staticmethod
    def concept_8(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        return 0 if 2 * (salary + commission) / 3 - 5000 * elevel - loan / 5 - 10000 > 1 else 1

    @staticmethod
    def concept_9(salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan):
        equity = 0.1 * hvalue * (hyears - 20) if hyears >= 20 else 0
        return 0 if 2 * (salary + commission) / 3 - 5000 * elevel + equity / 5 - 10000 > 1 else 1

    def _perturb_value(self, val, val_min, val_max, val_range=None):
        if val_range is None:
            val_range = val_max - val_min
        v = val + val_range * (2 * (self._random_state.rand() - 0.5)) * self._perturbation
        return val_min if v < val_min else val_max if v > val_max else v

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            while True:
                salary = 20000 + 130000 * self._random_state.rand()
                commission = 0 if salary >= 75000 else 10000 + 75000 * self._random_state.rand()
                age = 20 + self._random_state.randint(61)
                elevel = self._random_state.randint(5)
                car = self._random_state.randint(20)
                zipcode = self._random_state.randint(9)
                hvalue = (9 - zipcode) * 100000 * (0.5 + self._random_state.rand())
                hyears = 1 + self._random_state.randint(30)
                loan = self._random_state.rand() * 500000
                group = self._classification_functions[self._classification_function](salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan)
                if not self._balance_classes:
                    break
                if (group == 0) == self._next_class_should_be_zero:
                    self._next_class_should_be_zero = not self._next_class_should_be_zero
                    break
            if self._perturbation > 0.0:
                salary = self._perturb_value(salary, 20000, 150000)
                if commission > 0:
                    commission = self._perturb_value(commission, 10000, 75000)
                age = np.round(self._perturb_value(age, 20, 80))
                hvalue = self._perturb_value(hvalue, (9 - zipcode) * 100000, 0, 135000)
                hyears = np.round(self._perturb_value(hyears, 1, 30))
                loan = self._perturb_value(loan, 0, 500000)
            data[j, 0] = salary
            data[j, 1] = commission
            data[j, 2] = age
            data[j, 3] = elevel
            data[j, 4] = car
            data[j, 5] = zipcode
            data[j, 6] = hvalue
            data[j, 7] = hyears
            data[j, 8] = loan
            data[j, 9] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y


class LEDGenerator:
    _NUM_BASE_ATTRIBUTES = 7
    _TOTAL_ATTRIBUTES_INCLUDING_NOISE = 24

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        target = np.zeros(batch_size, dtype=int)
        for j in range(batch_size):
            self.sample_idx += 1
            digit = self._random_state.randint(self.n_classes)
            target[j] = digit
            for i in range(7):
                on = self._ORIGINAL_INSTANCES[digit, i]
                if 0.01 + self._random_state.rand() <= self._noise_percentage:
                    data[j, i] = 1 if on == 0 else 0
                else:
                    data[j, i] = on
            if self._has_noise:
                for i in range(7, 24):
                    data[j, i] = self._random_state.randint(2)
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = target
        return self.current_sample_x, self.current_sample_y


class LEDGeneratorDrift:
    _NUM_BASE_ATTRIBUTES = 7
    _TOTAL_ATTRIBUTES_INCLUDING_NOISE = 24

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        target = np.zeros(batch_size, dtype=int)
        for j in range(batch_size):
            self.sample_idx += 1
            digit = self._random_state.randint(self.n_classes)
            target[j] = digit
            for i in range(7):
                on = self._ORIGINAL_INSTANCES[digit, i]
                if 0.01 + self._random_state.rand() <= self._noise_percentage:
                    data[j, self._numberAttribute[i]] = 1 if on == 0 else 0
                else:
                    data[j, self._numberAttribute[i]] = on
            if self._has_noise:
                for i in range(7, 24):
                    data[j, self._numberAttribute[i]] = self._random_state.randint(2)
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = target
        return self.current_sample_x, self.current_sample_y


class WaveformGenerator:
    _NUM_BASE_ATTRIBUTES = 21
    _TOTAL_ATTRIBUTES_INCLUDING_NOISE = 40

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            self.sample_idx += 1
            group = self._random_state.randint(0, self.n_classes)
            a = 1 if group == 2 else 0
            b = 1 if group == 0 else 2
            u = self._random_state.rand()
            for i in range(21):
                data[j, i] = u * self._H_FUNCTION[a][i] + (1 - u) * self._H_FUNCTION[b][i] + self._random_state.normal()
            if self._has_noise:
                for i in range(21, 40):
                    data[j, i] = self._random_state.normal()
            data[j, data[j].size - 1] = group
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = np.ravel(data[:, self._n_features:]).astype(int)
        return self.current_sample_x, self.current_sample_y


class HyperplaneGenerator:
    """Hulten et al. 2001: class 1 on or above the hyperplane through half of the total weight."""

    def next_sample(self, batch_size=1):
        data = np.zeros([batch_size, self._n_features + 1])
        for j in range(batch_size):
            total = np.sum(self._weights)
            self.sample_idx += 1
            s = 0
            for i in range(self._n_features):
                x = self._random_state.rand()
                data[j, i] = x
                s += self._weights[i] * x
            group = 1 if s >= total * 0.5 else 0
            if 0.01 + self._random_state.rand() <= self._noise_percentage:
                group = 1 if group == 0 else 0
            data[j, -1] = group
            self._generate_drift()
        self.current_sample_x = data[:, :self._n_features]
        self.current_sample_y = data[:, self._n_features:].flatten().astype(int)
        return self.current_sample_x, self.current_sample_y

    def _generate_drift(self):
        for i in range(self._n_drift_features):
            self._weights[i] = self._weights[i] + self._sigma[i] * self._mag_change
            if 0.01 + self._random_state.rand() <= self._sigma_percentage:
                self._sigma[i] = -self._sigma[i]
