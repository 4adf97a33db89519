# -*- coding: utf-8 -*-
"""
"""
