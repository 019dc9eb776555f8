SPECIFICATION Spec
VIEW View
INVARIANTS QueueWf QueueFresh MergeSound Converged
PROPERTY NoRegress
CHECK_DEADLOCK FALSE
