"""assert_almost_equal as documented: abs(desired-actual) < 1.5 * 10**-d"""


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if actual != actual and desired != desired:
        return
    if actual == desired:
        return
    if not abs(desired - actual) < 1.5 * 10.0 ** (-decimal):
        raise AssertionError(
            'Arrays are not almost equal to %d decimals\n ACTUAL: %r\n '
            'DESIRED: %r' % (decimal, actual, desired))
