NOT_APPLICABLE = {}
COMMON = "Obligations are generated from /repo's source on every run and discharged for all inputs of the stated domain; obligations marked [fixed shape] fix a size. Run-time cases are bounded and never counted as proved. Floating point treated as real arithmetic."
NOTE = {f"C{i:02d}": COMMON for i in range(1, 31)}
