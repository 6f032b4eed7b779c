from openquake.hazardlib._rec import Rec

BASE = ('source_id', 'name', 'tectonic_region_type', 'mfd')
PAR = BASE + ('rupture_mesh_spacing', 'magnitude_scaling_relationship',
              'rupture_aspect_ratio')


class _Source(Rec):
    def count_ruptures(self):
        return len(self.mfd.get_annual_occurrence_rates())


class PointSource(_Source):
    params = PAR + ('upper_seismogenic_depth', 'lower_seismogenic_depth',
                    'location', 'nodal_plane_distribution',
                    'hypocenter_distribution', 'temporal_occurrence_model')


class AreaSource(PointSource):
    params = PAR + ('upper_seismogenic_depth', 'lower_seismogenic_depth',
                    'nodal_plane_distribution', 'hypocenter_distribution',
                    'polygon', 'area_discretization',
                    'temporal_occurrence_model')


class SimpleFaultSource(_Source):
    params = PAR + ('upper_seismogenic_depth', 'lower_seismogenic_depth',
                    'fault_trace', 'dip', 'rake',
                    'temporal_occurrence_model')


class ComplexFaultSource(_Source):
    params = PAR + ('edges', 'rake', 'temporal_occurrence_model')


class CharacteristicFaultSource(_Source):
    params = BASE + ('surface', 'rake', 'temporal_occurrence_model')
