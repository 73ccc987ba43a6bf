SPECIFICATION MSpec
CONSTANT Guard <- PlanGuard
  Shadow <- PlanShadow
VIEW View
INVARIANTS HookAgrees Current Fails Independent Transparent Stable
CHECK_DEADLOCK FALSE
