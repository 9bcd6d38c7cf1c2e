def export_tle(s):
    return s.line1, s.line2
