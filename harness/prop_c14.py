"""C14: spin ranges and LS couplings."""

from __future__ import annotations

import itertools
import random
from fractions import Fraction

import sympy as sp

from common import observe
from decays import corrupt

FORMS = {
    "float": lambda f: float(f),
    "rational": lambda f: sp.Rational(f.numerator, f.denominator),
    "fraction": lambda f: f,
    "plain": lambda f: int(f) if f.denominator == 1 else float(f),
}


def exact(x):
    if isinstance(x, bool) or not isinstance(x, (int, sp.Rational)):
        return []
    x = sp.Rational(x)
    return [int(x.p), int(x.q)]


def in_form(form, n):
    return FORMS[form](Fraction(n, 2))


def numbers(status, got):
    return [exact(x) for x in got] if status == "ok" else []


def couplings(status, got):
    return [[exact(L), exact(S)] for L, S in got] if status == "ok" else []


def spoil(status, got):
    """Results belong to whoever asked for them: later ones are none the worse for changing them."""
    if status == "ok" and isinstance(got, list):
        got.reverse()
        del got[1:]
        got.append(7)


def run(check):
    from ampform_dpd.spin import (
        create_rational_range, create_spin_range, filter_parity_violating_ls, generate_ls_couplings,
    )

    check.rule = (
        "exhaustive: projections of all spins 2J <= 40 (200), LS couplings for all spins up to 7/2 (11/2) and L up to 7"
        " (11), given as float, fraction, Rational or int, and every parity assignment; non-trivial: a coupling exists"
    )
    check.model_check("MCCouplings", "MCCouplingsThorough.cfg" if check.thorough else "MCCouplings.cfg")
    rng = random.Random(f"C14/{check.seed}")
    forms = sorted(FORMS)
    events = []
    for J in range(check.n(41, 201)):
        for form in forms:
            status, got = observe(create_spin_range, in_form(form, J))
            events.append({"kind": "range", "label": f"range 2J={J} {form}", "J": J,
                           "raised": got if status == "raised" else "", "got": numbers(status, got)})
            spoil(status, got)
    span = check.n(7, 14)
    for a, b in itertools.product(range(-span, span + 1), repeat=2):
        form = rng.choice(forms)
        status, got = observe(create_rational_range, in_form(form, a), in_form(form, b))
        events.append({"kind": "span", "label": f"span {a}/2..{b}/2 {form}", "a": a, "b": b,
                       "raised": got if status == "raised" else "", "got": numbers(status, got)})
        spoil(status, got)
    top = check.n(7, 11)
    for J, S1, S2 in itertools.product(range(top + 1), repeat=3):
        for Lmax in {rng.randint(0, top), rng.randint(0, top), 3, J}:
            form = rng.choice(forms)
            args = [in_form(form, x) for x in (J, S1, S2)]
            if Lmax == 3 and rng.random() < 0.5:
                status, got = observe(generate_ls_couplings, *args)
            elif rng.random() < 0.5:
                status, got = observe(generate_ls_couplings, *args, Lmax)
            else:
                status, got = observe(generate_ls_couplings, *args, max_L=Lmax)
            events.append({"kind": "ls", "label": f"2J={J} -> {S1} {S2} L<={Lmax} {form}", "J": J, "S1": S1, "S2": S2,
                           "Lmax": Lmax, "raised": got if status == "raised" else "", "got": couplings(status, got)})
            if status == "raised" or not got:
                continue
            eta = [rng.choice([1, -1]) for _ in range(3)]
            for flip in (1, -1):
                e = [flip * eta[0], *eta[1:]]
                given = list(got)
                rng.shuffle(given)
                before = couplings("ok", given)
                kind = rng.choice((int, float, sp.Integer, Fraction))
                status2, kept = observe(filter_parity_violating_ls, given, *(kind(x) for x in e))
                events.append({"kind": "parity", "label": f"2J={J} -> {S1} {S2} parities {e}", "eta": e, "given": before,
                               "after": couplings("ok", given), "raised": kept if status2 == "raised" else "",
                               "got": couplings(status2, kept)})
                spoil(status2, kept)
            spoil(status, got)
    nontrivial = [n for n, e in enumerate(events) if e["kind"] in {"ls", "parity"} and len(e["got"]) > 1]
    check.extra["distinct_nontrivial"] = len(nontrivial)
    canaries = []
    n = next((n for n in nontrivial if events[n]["kind"] == "ls"), None)
    if n is not None:
        got = events[n]["got"]
        canaries += [
            (corrupt(events[n], n, got=got[1:]), "allowed couplings"), (corrupt(events[n], n, got=got[::-1]), "each once"),
            (corrupt(events[n], n, got=[*got, got[-1]]), "each once"), (corrupt(events[n], n, got=[[[], []]]), "exact"),
        ]
    n = next((n for n in nontrivial if events[n]["kind"] == "parity"), None)
    if n is not None:
        canaries.append((corrupt(events[n], n, got=events[n]["got"][1:]), "parity"))
    check.judge("TraceSpin", events, canaries)
