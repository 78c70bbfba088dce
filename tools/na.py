REASONS = {}
NOTES = {}
