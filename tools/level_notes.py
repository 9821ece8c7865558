DEFAULT = ("Bounded: TLC explores the specification exhaustively for small constants, every behaviour of that configuration is executed by the real code, "
           "and seeded random executions beyond those bounds are validated against the same specification. Trusts TLC, the driver's projection and the stub headers for absent third-party libraries.")
NA = {}
NOTES = {}
