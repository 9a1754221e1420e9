"""Client programs of sheets, their factories and backends; `oracle` stands for what the environment decides."""
import oracle
from pandalone import xleash
from pandalone.xleash import Coords
from pandalone.xleash.io import backend
from pandalone.xleash.io.backend import ABCBackend, ABCSheet, ArraySheet, SheetId, SheetsFactory, SimpleSheetsFactory


class Sh(ABCSheet):
    """A sheet known by its workbook's url, its name and its index, and a serial number."""

    def __init__(self, serial, book, name, index):
        self.serial = serial
        self.book = book
        self.name = name
        self.index = index

    def get_sheet_ids(self):
        return SheetId(self.book, [self.name, self.index])

    def open_sibling_sheet(self, sheet_id):
        serial, name, index = oracle.opened(self.book, sheet_id)
        return Sh(serial, self.book, name, index)

    def list_sheetnames(self):
        return [self.name]

    def _read_states_matrix(self):
        return None

    def read_rect(self, st, nd):
        return None

    def _close(self):
        oracle.closed(self.serial)

    def _close_all(self):
        oracle.closed_all(self.book, self.serial)


class Be(ABCBackend):
    def __init__(self, no):
        self.no = no

    def bid(self, wb_url):
        return oracle.bid(self.no, wb_url)

    def open_sheet(self, wb_url, sheet_id):
        if not oracle.found(self.no, wb_url, sheet_id):
            return None
        serial, name, index = oracle.opened(wb_url, sheet_id)
        return Sh(serial, wb_url, name, index)

    def list_sheetnames(self, wb_url):
        return oracle.listed(self.no, wb_url)


def history(ops):
    sf = SheetsFactory([Be(0)])
    last = None
    for op in ops:
        oracle.op(op)
        if op[0] == "fetch":
            last = sf.fetch_sheet(op[1], op[2])
            oracle.got(last.serial)
        elif op[0] == "sibling":
            if last is not None:
                last = sf.fetch_sheet(None, op[1], last)
                oracle.got(last.serial)
        elif op[0] == "add":
            last = Sh(op[1], op[2], op[3], op[4])
            sf.add_sheet(last, op[5], op[6])
        elif op[0] == "readd":
            if last is not None:
                sf.add_sheet(last, op[1], op[2])
        elif op[0] == "with":
            with sf:
                pass
        elif op[0] == "close":
            sf.close()
    oracle.op(("end",))


def auction(n, simple, url, sheet_id):
    sf = SimpleSheetsFactory([Be(i) for i in range(n)]) if simple else SheetsFactory([Be(i) for i in range(n)])
    return sf.fetch_sheet(url, sheet_id)


def auctions(n, simple, urls, sheet_id):
    sf = SimpleSheetsFactory([Be(i) for i in range(n)]) if simple else SheetsFactory([Be(i) for i in range(n)])
    for url in urls:
        oracle.op(url)
        try:
            sf.fetch_sheet(url, sheet_id)
        except ValueError:
            oracle.got(url)


def listing(n, simple, url):
    sf = SimpleSheetsFactory([Be(i) for i in range(n)]) if simple else SheetsFactory([Be(i) for i in range(n)])
    return sf.list_sheetnames(url)


def default_auction(url, sheet_id):
    xleash.io_backends.append(Be(7))
    return SimpleSheetsFactory().fetch_sheet(url, sheet_id)


def array_rect(arr, st, nd):
    sheet = ArraySheet(arr)
    return sheet.read_rect(Coords(st[0], st[1]), nd and Coords(nd[0], nd[1]))


def array_states(arr):
    sheet = ArraySheet(arr)
    return sheet.get_states_matrix(), sheet.get_states_matrix(), sheet.get_margin_coords()


def xlrd_rect(url, sheet_id, st, nd):
    from pandalone.xleash.io._xlrd import XlrdBackend
    sheet = XlrdBackend().open_sheet(url, sheet_id)
    return sheet.read_rect(Coords(st[0], st[1]), nd and Coords(nd[0], nd[1]))


def xlrd_sibling_rect(url, sheet_id, other_id, st, nd):
    from pandalone.xleash.io._xlrd import XlrdBackend
    sheet = XlrdBackend().open_sheet(url, sheet_id).open_sibling_sheet(other_id)
    return sheet.read_rect(Coords(st[0], st[1]), nd and Coords(nd[0], nd[1]))


def xlrd_states(url, sheet_id):
    from pandalone.xleash.io._xlrd import XlrdBackend
    sheet = XlrdBackend().open_sheet(url, sheet_id)
    return sheet.get_states_matrix(), sheet.get_margin_coords()


def xlrd_open(url, sheet_id):
    from pandalone.xleash.io._xlrd import XlrdBackend
    return XlrdBackend().open_sheet(url, sheet_id).get_sheet_ids()


def xlrd_list(url):
    from pandalone.xleash.io._xlrd import XlrdBackend
    return XlrdBackend().list_sheetnames(url)


def xlrd_bid(url):
    from pandalone.xleash.io._xlrd import XlrdBackend
    return XlrdBackend().bid(url)


class Ep(object):
    """A plugin declared."""

    def __init__(self, no):
        self.no = no
        self.name = "n%d" % no
        self.dist = "dist%d" % no

    def __getattr__(self, attr):
        return oracle.unmodelled("of plugins", attr)

    def __repr__(self):
        return "Ep%d" % self.no

    def __str__(self):
        return "Ep%d" % self.no

    def load(self):
        return oracle.load(self.no)


def plugins(group, n):
    xleash._plugins_installed.clear()
    oracle.declare([Ep(i) for i in reversed(range(n))])
    xleash._init_plugins(group)
    return xleash._plugins_installed


def install_xlrd(given, times):
    from pandalone.xleash.io import _xlrd
    del xleash.io_backends[:]
    if given:
        xleash.io_backends.append(Be(1))
    for _ in times:
        _xlrd.load_as_xleash_plugin()
    return [isinstance(b, _xlrd.XlrdBackend) for b in xleash.io_backends]


def based(simple, sheet_id, cached):
    base = Sh(1, "file:///a", "one", 0)
    sf = SimpleSheetsFactory([Be(0)]) if simple else SheetsFactory([Be(0)])
    if cached:
        sf.add_sheet(base)
    sheet = sf.fetch_sheet(None, sheet_id, base)
    return sheet.serial


class Bounded(ABCSheet):
    """A sheet whose states, and perhaps margins, are read from the environment."""

    def _read_states_matrix(self):
        return oracle.states()

    def _read_margin_coords(self):
        return oracle.margins()

    def _close(self):
        pass

    def get_sheet_ids(self):
        return SheetId("wb", ["sh", 0])

    def open_sibling_sheet(self, sheet_id):
        return None

    def list_sheetnames(self):
        return []

    def read_rect(self, st, nd):
        return None


def bounds_of(up, dn):
    oracle.give(up and Coords(up[0], up[1]), dn and Coords(dn[0], dn[1]))
    return Bounded().get_margin_coords()


def bounds_of_array(arr):
    return ArraySheet(arr).get_margin_coords()


def states_of_array(arr):
    return ArraySheet(arr).get_states_matrix()


def bounds_of_excel(url, sheet_id):
    from pandalone.xleash.io._xlrd import XlrdBackend
    return XlrdBackend().open_sheet(url, sheet_id).get_margin_coords()


def based_elsewhere(simple, url, sheet_id, based):
    base = Sh(1, "file:///a", "one", 0)
    sf = SimpleSheetsFactory([Be(0)]) if simple else SheetsFactory([Be(0)])
    if not simple:
        sf.add_sheet(base)
    sheet = sf.fetch_sheet(url, sheet_id, base if based else None)
    return sheet.serial


def excel_closed(url, sheet_id):
    from pandalone.xleash.io._xlrd import XlrdBackend
    sf = SheetsFactory([XlrdBackend()])
    one = sf.fetch_sheet(url, sheet_id)
    oracle.op("replace")
    sf.add_sheet(Sh(5, "wb5", "x", 7), url, sheet_id)
    oracle.op("opened")
    sf.fetch_sheet(url, "two")
    oracle.op("close")
    sf.close()


def excel_names(url, sheet_id):
    from pandalone.xleash.io._xlrd import XlrdBackend
    return XlrdBackend().open_sheet(url, sheet_id).list_sheetnames()


def array_names(arr, ids):
    if ids:
        return ArraySheet(arr, SheetId(ids[0], [ids[1], ids[2]])).list_sheetnames()
    return ArraySheet(arr).list_sheetnames()
