package callcounters

// VkReset forgets all counters.
func VkReset() { callCounters = make(map[Id]*CallCounter) }
