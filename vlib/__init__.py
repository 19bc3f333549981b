"""Monitoring framework for python-jsonpath."""
