package harness
