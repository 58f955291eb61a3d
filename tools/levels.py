"""Texts of MANIFEST.json."""
NOTE = {
    "*": "TLC explores the specification exhaustively within the small constants given in the check; every transition of that graph is "
         "replayed into the real code, and seeded random histories of the real code with larger constants are validated step by step by TLC. "
         "The code is compiled with assertions, AddressSanitizer and UndefinedBehaviorSanitizer. Trusted: TLC, the harness, the compiler.",
}
TECHNIQUE, LEVEL, NOT_APPLICABLE = {}, {}, {}
