from openquake.hazardlib._rec import Rec


class WC1994(Rec):
    pass


class PeerMSR(Rec):
    pass


def get_available_magnitude_scalerel():
    return {'WC1994': WC1994, 'PeerMSR': PeerMSR}
