class Tree:
    """suffix_tree.tree.Tree: holds the sequences it was built from; its queries are under assumed contracts"""
    def __init__(self, data):
        self.data = data

    def maximal_repeats(self):
        raise NotImplementedError()

    def find_all(self, s):
        raise NotImplementedError()

    def find(self, s):
        raise NotImplementedError()
