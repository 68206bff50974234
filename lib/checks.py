import checks_frame, checks_master, checks_data, checks_handle, checks_tools, checks_memory, checks_many, checks_dumps, checks_absent, checks_moments, checks_reasons, checks_objects
CHECKS = {'C01': checks_frame.c01, 'C02': checks_frame.c02, **{'C%02d' % n: getattr(checks_master, 'c%02d' % n) for n in range(3, 13)},
          **{'C%02d' % n: getattr(checks_data, 'c%02d' % n) for n in (13, 14, 15, 16, 17, 18, 19, 22, 26, 28)},
          **{'C%02d' % n: getattr(checks_handle, 'c%02d' % n) for n in (20, 21)},
          **{'C%02d' % n: getattr(checks_tools, 'c%02d' % n) for n in (23, 24, 25, 27)}, 'C29': checks_memory.c29, 'C30': checks_many.c30, 'C31': checks_dumps.c31, 'C32': checks_absent.c32, 'C33': checks_moments.c33, 'C34': checks_handle.c34, 'C35': checks_reasons.c35, 'C36': checks_objects.c36}
NOT_APPLICABLE = {}
