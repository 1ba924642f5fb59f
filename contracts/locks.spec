package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C23 ----
# There is nothing to write down per function: the guards declared with the contracts
# ("guard T.mu: fields", "guard global mu: vars") are checked on every function that can
# be called with no lock held and reaches guarded state or a lock (see govc/locks.go):
# - guarded variables are accessed with their lock held (shared for reading),
# - a lock is not acquired while it is held by the caller, and released only if held,
# - every return leaves the locks as they were on entry, loops and recursive calls too.
