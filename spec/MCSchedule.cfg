SPECIFICATION ScheduleSpec
CONSTANT Keyrings <- ScheduleKeyrings
VIEW ScheduleView
CHECK_DEADLOCK FALSE
