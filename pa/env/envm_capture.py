"""Client programs of parsing and capturing."""
import oracle
from pandalone import xleash
from pandalone.xleash import ABCSheet, Cell, Coords, Edge, resolve_capture_rect
from pandalone.xleash import parse_xlref


def edge(e):
    return e and Edge(Cell(e[0], e[1]), e[2], e[3])


def capture(states, up, dn, st_edge, nd_edge, exp_moves, base):
    st, nd = resolve_capture_rect(states, (Coords(up[0], up[1]), Coords(dn[0], dn[1])), edge(st_edge), edge(nd_edge), exp_moves, base and Coords(base[0], base[1]))
    return st, nd


def parsed(xl_ref):
    return parse_xlref(xl_ref)


def parsed_capture(xl_ref, states, up, dn, base):
    res = parse_xlref(xl_ref)
    st, nd = resolve_capture_rect(states, (Coords(up[0], up[1]), Coords(dn[0], dn[1])), res["st_edge"], res["nd_edge"], res["exp_moves"], base and Coords(base[0], base[1]))
    return st, nd


def twice(states, up, dn, a, b):
    margins = (Coords(up[0], up[1]), Coords(dn[0], dn[1]))
    try:
        resolve_capture_rect(states, margins, edge(a[0]), edge(a[1]), a[2], Coords(0, 0))
    except Exception:
        pass
    st, nd = resolve_capture_rect(states, margins, edge(b[0]), edge(b[1]), b[2], Coords(0, 0))
    return st, nd


class Cached(ABCSheet):
    def _read_states_matrix(self):
        return oracle.states()

    def _read_margin_coords(self):
        return oracle.margins()

    def _close(self):
        pass

    def get_sheet_ids(self):
        return None

    def open_sibling_sheet(self, sheet_id):
        return None

    def list_sheetnames(self):
        return []

    def read_rect(self, st, nd):
        return None


def cached():
    sheet = Cached()
    a = sheet.get_states_matrix()
    x = sheet.get_margin_coords()
    y = sheet.get_margin_coords()
    b = sheet.get_states_matrix()
    return a, b, x, y


def two_specs(xl_ref):
    return parse_xlref(xl_ref)["call_spec"], parse_xlref(xl_ref)["call_spec"]
