"""Bounded exhaustive model checking of soepy: closed worlds, reference model, explorers."""
