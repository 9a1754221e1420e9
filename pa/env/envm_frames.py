"""A table as pandas-frames are."""
import oracle
from pandalone.mappings import pstep_from_df


class Index:
    """The labels of an axis."""

    def __init__(self, labels):
        self.labels = labels

    def __iter__(self):
        return iter(self.labels)

    def __len__(self):
        return len(self.labels)

    def __contains__(self, x):
        return x in self.labels

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Index(self.labels[i])
        if not isinstance(i, int):
            return oracle.unmodelled("of tables")
        return self.labels[i]

    def __getattr__(self, attr):
        return oracle.unmodelled(attr)

    def __eq__(self, other):
        return oracle.unmodelled("of tables")

    def __ne__(self, other):
        return oracle.unmodelled("of tables")

    def tolist(self):
        return list(self.labels)

    to_list = tolist

    def drop(self, labels, errors="raise"):
        gone = [labels] if isinstance(labels, str) else list(labels)
        if errors != "ignore":
            for x in gone:
                if x not in self.labels:
                    raise KeyError(x)
        return Index([x for x in self.labels if x not in gone])

    def difference(self, other, sort=None):
        gone = list(other)
        return Index([x for x in self.labels if x not in gone])

    def get_loc(self, x):
        return self.labels.index(x)

    def isin(self, xs):
        return [x in xs for x in self.labels]

    def map(self, f):
        return Index([f(x) for x in self.labels])


class Column:
    def __init__(self, index, values):
        self.index = index
        self.values = values

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return oracle.unmodelled("of tables")

    def __getattr__(self, attr):
        return oracle.unmodelled(attr)

    def items(self):
        return list(zip(self.index, self.values))

    def tolist(self):
        return list(self.values)

    to_list = tolist

    def to_dict(self):
        return dict(zip(self.index, self.values))


class Loc:
    """Selecting by labels."""

    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        fr = self.frame
        if isinstance(key, str):
            return fr.row(key)
        if not isinstance(key, tuple) or len(key) != 2:
            return oracle.unmodelled("of tables")
        row, col = key
        if isinstance(row, slice):
            return fr[col]
        r = fr.row(row)
        if isinstance(col, str):
            return r[col]
        if isinstance(col, slice):
            return r
        return dict([(k, r[k]) for k in col])


class Frame:
    def __init__(self, index, columns, rows):
        self.index = index if isinstance(index, Index) else Index(index)
        self.columns = columns if isinstance(columns, Index) else Index(columns)
        self.rows = rows

    def __getattr__(self, attr):
        return oracle.unmodelled(attr)

    def __getitem__(self, col):
        if not isinstance(col, str):
            keep = [x for x in col]
            for x in keep:
                if not isinstance(x, str):
                    return oracle.unmodelled("of tables")
            return Frame(self.index, keep, [[dict(zip(self.columns, r))[x] for x in keep] for r in self.rows])
        if col not in self.columns:
            raise KeyError(col)
        return Column(self.index, [dict(zip(self.columns, r))[col] for r in self.rows])

    def __contains__(self, col):
        return col in self.columns

    def row(self, label):
        for i, r in zip(self.index, self.rows):
            if i == label:
                return dict(zip(self.columns, r))
        raise KeyError(label)

    @property
    def loc(self):
        return Loc(self)

    @property
    def values(self):
        return [list(r) for r in self.rows]

    @property
    def empty(self):
        return not (len(self.columns) and len(self.rows))

    def __iter__(self):
        return iter(self.columns)

    def __len__(self):
        return len(self.rows)

    def copy(self):
        return Frame(self.index, self.columns, [list(r) for r in self.rows])

    def drop(self, labels=None, axis=0, errors="raise", columns=None):
        if columns is None and axis not in (1, "columns"):
            return oracle.unmodelled("of tables")
        keep = self.columns.drop(labels if columns is None else columns, errors=errors)
        return Frame(self.index, keep, [[dict(zip(self.columns, r))[c] for c in keep] for r in self.rows])

    def itertuples(self, index=True, name=None):
        return [((i,) if index else ()) + tuple(r) for i, r in zip(self.index, self.rows)]

    def iterrows(self):
        return [(i, dict(zip(self.columns, r))) for i, r in zip(self.index, self.rows)]

    def items(self):
        return [(c, self[c]) for c in self.columns]

    def to_dict(self, orient="dict"):
        if orient == "index":
            return dict([(i, dict(zip(self.columns, r))) for i, r in zip(self.index, self.rows)])
        if orient == "records":
            return [dict(zip(self.columns, r)) for r in self.rows]
        return oracle.unmodelled("of tables")


def frame(index, columns, rows):
    return Frame(index, columns, rows)


def made(index, columns, rows, name_col):
    if name_col is None:
        return pstep_from_df(Frame(index, columns, rows))
    return pstep_from_df(Frame(index, columns, rows), name_col=name_col)
