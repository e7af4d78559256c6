"""progress bars do not matter here: pass the data through"""


class tqdm:
    def __init__(self, iterable=None, *a, **k):
        self.iterable = iterable
        self.n = 0

    def __iter__(self):
        for x in self.iterable:
            yield x

    def __len__(self):
        return len(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def update(self, n=1):
        pass

    def close(self):
        pass

    def refresh(self, *a, **k):
        pass

    def set_postfix_str(self, *a, **k):
        pass

    def set_postfix(self, *a, **k):
        pass

    def set_description(self, *a, **k):
        pass

    def set_description_str(self, *a, **k):
        pass

    @staticmethod
    def write(*a, **k):
        pass


def trange(*a, **k):
    return tqdm(range(*a), **k)
