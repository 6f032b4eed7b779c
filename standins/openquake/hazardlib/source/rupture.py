from openquake.hazardlib._rec import Rec


class Rupture(Rec):
    params = ('mag', 'rake', 'tectonic_region_type', 'hypocenter', 'surface',
              'source_typology')
