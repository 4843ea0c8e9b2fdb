"""Deterministic simulation of resistics: see /verif/DESIGN.md"""
