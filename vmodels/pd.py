class DataFrame:
    """pandas.DataFrame: rows of values under column labels and row labels, plus columns added by item assignment"""
    def __init__(self, data, columns, index):
        self.data = data
        self.columns = columns
        self.index = index
        self.added = {}

    def __setitem__(self, key, value):
        self.added[key] = value
