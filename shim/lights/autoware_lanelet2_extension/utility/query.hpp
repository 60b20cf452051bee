// Empty: the map queries are answered by the harness.
