from datetime import datetime, timedelta
import numpy as np


class OutOfTimeRangeError(ValueError):
    pass


class Time:
    def __init__(self, data=None, *args, **kwargs):
        if data is None:
            data = [datetime(2000, 1, 1)]
        if isinstance(data, Time):
            data = data.data
        self.data = np.asarray(data, dtype=object)
        self.filename = kwargs.get('filename')
        self.varname = kwargs.get('varname')
        self.tz_offset_name = kwargs.get('tz_offset_name')
        self.tz_offset = kwargs.get('tz_offset')
        self.origin = kwargs.get('origin')
        self.displacement = kwargs.get('displacement')
        kw = {k: v for k, v in kwargs.items() if k in ('name',)}
        super().__init__(**kw)

    @classmethod
    def constant_time(cls):
        return cls([datetime(2000, 1, 1)])

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    @property
    def min_time(self):
        return self.data[0]

    @property
    def max_time(self):
        return self.data[-1]

    def valid_time(self, time):
        if time < self.min_time or time > self.max_time:
            raise OutOfTimeRangeError(
                'time specified ({}) is not within the bounds of the time '
                '({} to {})'.format(time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(time)
        n = 0
        for t in self.data:
            if t < time:
                n += 1
        return n

    def interp_alpha(self, time, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 > len(self.data) - 1:
            return 1
        if i0 == 0:
            return 0
        t0 = self.data[i0 - 1]
        t1 = self.data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()
